From fd5623082c7d4c9155fb4c33ea514c06a4bc9806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 001/153] fix: kgraphMapFm must reload domains after
 recomputing the mapping

When there is no frontier and the balance is bad, kgraphMapFm recomputes
a whole mapping, after which the number and location of domains may
change. The stale values led to heap buffer overflows; the strategy was
also leaked.
---
 src/libscotch/kgraph_map_fm.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 4943341..2a8c813 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -994,8 +994,8 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
   const Gnum * restrict const     edgetax = grafptr->s.edgetax;
   const Gnum * restrict const     edlotax = grafptr->s.edlotax;
   const Arch * restrict const     archptr = grafptr->m.archptr;
-  const Gnum                      domnnbr = grafptr->m.domnnbr;
-  const ArchDom * restrict const  domntab = grafptr->m.domntab;
+  Gnum                            domnnbr = grafptr->m.domnnbr;
+  const ArchDom *                 domntab = grafptr->m.domntab;
   Anum * restrict const           parttax = grafptr->m.parttax;
   Anum * restrict const           parotax = grafptr->r.m.parttax;
   const Gnum * restrict const     pfixtax = grafptr->pfixtax;
@@ -1034,10 +1034,23 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       return  (0);
     }
     else {                                        /* Imbalance must be fought */
-      const Strat *         strat;
+      Strat *               strat;
+      int                   o;
 
-      strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}"); /* Use a standard algorithm */
-      kgraphMapSt (grafptr, strat);               /* Perform mapping */
+      if ((strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}")) == NULL) { /* Use a standard algorithm */
+        errorPrint ("kgraphMapFm: invalid strategy");
+        memFree    (comploadmax);
+        return     (1);
+      }
+      o = kgraphMapSt (grafptr, strat);           /* Perform mapping */
+      stratExit (strat);
+      if (o != 0) {
+        errorPrint ("kgraphMapFm: cannot compute mapping");
+        memFree    (comploadmax);
+        return     (1);
+      }
+      domnnbr = grafptr->m.domnnbr;               /* Number and location of domains may have changed after mapping */
+      domntab = grafptr->m.domntab;
 
       if (grafptr->fronnbr == 0) {                /* If new partition has no frontier */
         memFree (comploadmax);
-- 
2.43.0


From d0e7943f003188a482d57ee227c7b17704e9b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 002/153] fix: archLoad must not call a missing class freeing
 routine

Loading invalid data for an architecture class that has no archFree
routine (e.g. 'cmplt', 'hcub', 'mesh2D') called a NULL pointer.
---
 src/libscotch/arch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/arch.c b/src/libscotch/arch.c
index 86239fe..7b57bf5 100644
--- a/src/libscotch/arch.c
+++ b/src/libscotch/arch.c
@@ -211,7 +211,8 @@ FILE * const                stream)
   if (clasptr->archLoad != NULL) {                /* If class has loading function */
     if (clasptr->archLoad (&archptr->data, stream) != 0) { /* Load class data      */
       errorPrint ("archLoad: cannot load architecture data");
-      clasptr->archFree (&archptr->data);         /* Perform clean-up             */
+      if (clasptr->archFree != NULL)              /* If class has freeing function */
+        clasptr->archFree (&archptr->data);       /* Perform clean-up             */
       memSet (archptr, 0, sizeof (Arch));         /* Initialize architecture body */
       return (1);
     }
-- 
2.43.0


From 4da44902b0c1cee9910d671cd5a3fcc650df923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 003/153] fix: single-terminal restrictions of architectures

The coarsening tree of a sub-architecture or of a type-2 decomposition
architecture starts from all the vertices of the original architecture,
not from the kept ones. Keeping a single terminal stopped the recursion
at once and took the first vertex as the root.
---
 src/libscotch/arch_build2.c | 2 +-
 src/libscotch/arch_sub.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_build2.c b/src/libscotch/arch_build2.c
index 3037afe..2698245 100644
--- a/src/libscotch/arch_build2.c
+++ b/src/libscotch/arch_build2.c
@@ -649,7 +649,7 @@ Context * const             contptr)              /*+ Execution context
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   matcdat.vertsum = vnumnbr;                      /* Account for kept vertices of original graph */
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) archDeco2BuildMatchMate, treetab, vertnbr);
 
   if (velotmp != NULL)                            /* Temporary vertex load array will no longer be necessary */
     memFree (velotmp);
diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index d0e2b4b..40e5ab9 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -475,7 +475,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
     treetab[orgtermnum].vertnum = orgtermnum;     /* Vertex number in original architecture                    */
   }
 
-  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, vnumnbr);
+  rootptr = archSubArchBuild2 (&matcdat, (Anum (*) (void *, ArchCoarsenMulti * restrict *)) orgarchptr->clasptr->matchMate, treetab, orgtermnbr);
 
   orgarchptr->clasptr->matchExit (&matcdat);      /* Free matching structure */
 
-- 
2.43.0


From daccb8c2a7645bece96c004dad0dcdc4d42b554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 004/153] fix: archDeco2DomDist index of the vertex of a nested
 domain

The vertex number array is indexed by vnumidx and level, not by domain
index; the read was out of bounds.
---
 src/libscotch/arch_deco2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 24e021d..b773a7a 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -578,7 +578,7 @@ const ArchDeco2Dom * const  dom1ptr)
   }
 
   if (domnidx0 == domnidx1)                       /* If same domains after leveling, half distance of largest domain */
-    return (levlptr->grafdat.velotax[vnumtab[domnidx0]]);
+    return (levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]]);
 
   if (memAllocGroup ((void **) (void *)
                      &queutab, (size_t) ((vertnbr + ARCHDECO2PASSNBR + 1) * sizeof (Anum)), /* Room for pass markers */
-- 
2.43.0


From 9925cd4996572757cbced758a933ab593e3a2071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 005/153] fix: archDecoBuild must not un-base indices of a
 based mapping array

With target graphs of non-zero base value, the part array was read
before its beginning, and terminal numbers were shifted.
---
 src/libscotch/arch_build.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index d5ce943..a369de8 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -306,7 +306,7 @@ Context * const             contptr)              /*+ Execution context
     tgtvertnum = (tgtlistptr != NULL) ? tgtlistptr->vnumtab[termdomnum] : (termdomnum + tgtgrafptr->baseval);
     termverttab[termdomnum].labl = tgtvertnum;
     termverttab[termdomnum].wght = (tgtgrafptr->velotax != NULL) ? tgtgrafptr->velotax[tgtvertnum] : 1;
-    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum - tgtgrafptr->baseval));
+    termverttab[termdomnum].num  = archDomNum (&archdat, mapDomain (&mappdat, tgtvertnum));
     if (termverttab[termdomnum].num > termdommax) /* Find maximum terminal number */
       termdommax = termverttab[termdomnum].num;
   }
-- 
2.43.0


From 37958d489c453907f6a59717585d3cd5bfcdbda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 006/153] fix: archDecoDomTerm returned the domain before the
 sought one

Domain numbers of decomposition architectures start from 1, like in all
of the other routines. Initial parts of remapping and fixed vertices
were thus attached to wrong domains.
---
 src/libscotch/arch_deco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index e5d88b9..c048eaf 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -464,7 +464,7 @@ const ArchDomNum            domnnum)
     if (archptr->domverttab[domvertnum].size == 1) { /* If terminal vertex                      */
       domtermnum --;                              /* One more terminal scanned                  */
       if (archptr->domverttab[domvertnum].labl == domnnum) { /* If terminal domain number found */
-        domnptr->num = domvertnum;                /* Set domain number                          */
+        domnptr->num = domvertnum + 1;            /* Set domain number (domains start from 1)   */
         return (0);
       }
     }
-- 
2.43.0


From 0c1e450ce43d6e925ab7a00ec367b6f9aef7bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:44 +0000
Subject: [PATCH 007/153] fix: archDeco2DomDist debug check must come after the
 nesting test

The distance between the root domain and a nested domain is legal; it is
handled by the equality test after leveling.
---
 src/libscotch/arch_deco2.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index b773a7a..587b77a 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -520,13 +520,6 @@ const ArchDeco2Dom * const  dom1ptr)
   levlnum  = MAX (levlnum0, levlnum1);            /* Level where to start distance computations    */
   levlptr  = &archptr->levltab[levlnum];          /* Point to start level for distance computation */
   vertnbr  = levlptr->grafdat.vertnbr;            /* Get upper bound on number of vertices         */
-#ifdef SCOTCH_DEBUG_ARCH2
-  if (vertnbr <= 1) {                             /* If coarsest graph hit without exiting before */
-    errorPrint ("archDeco2DomDist: internal error (1)");
-    return     (-1);
-  }
-#endif /* SCOTCH_DEBUG_ARCH2 */
-
 #ifdef SCOTCH_DEBUG_ARCH2
   domnnum0 = domntab[domnidx0].domnnum;
   domnnum1 = domntab[domnidx1].domnnum;
@@ -580,6 +573,13 @@ const ArchDeco2Dom * const  dom1ptr)
   if (domnidx0 == domnidx1)                       /* If same domains after leveling, half distance of largest domain */
     return (levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]]);
 
+#ifdef SCOTCH_DEBUG_ARCH2
+  if (vertnbr <= 1) {                             /* If coarsest graph hit without exiting before */
+    errorPrint ("archDeco2DomDist: internal error (1)");
+    return     (-1);
+  }
+#endif /* SCOTCH_DEBUG_ARCH2 */
+
   if (memAllocGroup ((void **) (void *)
                      &queutab, (size_t) ((vertnbr + ARCHDECO2PASSNBR + 1) * sizeof (Anum)), /* Room for pass markers */
                      &disttax, (size_t) (vertnbr * sizeof (Anum)), NULL) == NULL) {
-- 
2.43.0


From ec46e1cf468e5aee02fc0b8321f5e4b611c40698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 008/153] fix: archDeco2DomDist index of the vertex of a common
 ancestor domain

Same wrong indexing as for nested domains.
---
 src/libscotch/arch_deco2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 587b77a..25c9af4 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -712,7 +712,7 @@ loop: vertnum = queutab[queutailidx ++];          /* Get vertex number from queu
     }
 
     if (domnidx0 == domnidx1) {                   /* If same domains after leveling, half distance of largest domain */
-      distmin = levlptr->grafdat.velotax[vnumtab[domnidx0]];
+      distmin = levlptr->grafdat.velotax[vnumtab[doextab[domnidx0].vnumidx - (levlnum - levlnum0)]];
       break;
     }
 #ifdef SCOTCH_DEBUG_ARCH2
-- 
2.43.0


From c3713b74a54e1ecf93d13807a018601d189c54fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:51 +0000
Subject: [PATCH 009/153] fix: unbalanced barriers when a thread gives up in
 kgraphMapDfLoop

A thread that owned isolated anchors skipped one of the two initial
barriers, so that the main thread could return while others were still
using its local data.
---
 src/libscotch/kgraph_map_df.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/kgraph_map_df.c b/src/libscotch/kgraph_map_df.c
index b8b7a68..7560a07 100644
--- a/src/libscotch/kgraph_map_df.c
+++ b/src/libscotch/kgraph_map_df.c
@@ -164,8 +164,6 @@ KgraphMapDfData * restrict const  loopptr)
   vertbas = baseval + DATASCAN (vancnbr, thrdnbr, thrdnum);
   vertnnd = baseval + DATASCAN (vancnbr, thrdnbr, thrdnum + 1);
 
-  sorttab = NULL;                                 /* In case of abort */
-
   velsmsk = 1;                                    /* Assume no anchors are isolated */
   if (edlotax != NULL) {
     for (vertnum = vertbas; vertnum < vertnnd; vertnum ++) { /* For all local non-anchor vertices */
@@ -177,7 +175,7 @@ KgraphMapDfData * restrict const  loopptr)
       if ((vendtax[vertnum] - verttax[vertnum]) == 0) { /* Non-anchor vertices should not be isolated */
         errorPrint ("kgraphMapDfLoop: internal error (1)");
         loopptr->abrtval = 1;
-        goto abort;
+        goto abort0;
       }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
 
@@ -205,7 +203,7 @@ KgraphMapDfData * restrict const  loopptr)
       if ((vendtax[vertnum] - verttax[vertnum]) == 0) { /* Non-anchor vertices should not be isolated */
         errorPrint ("kgraphMapDfLoop: internal error (2)");
         loopptr->abrtval = 1;
-        goto abort;
+        goto abort0;
       }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
 
@@ -221,13 +219,13 @@ KgraphMapDfData * restrict const  loopptr)
   }
   if (velsmsk == 0) {                             /* If graph is too small to have any usable anchors */
     loopptr->abrtval = 1;                         /* We will leave during the first iteration         */
-    goto abort;
+    goto abort0;
   }
 
   if ((sorttab = memAlloc (domnnbr * sizeof (KgraphMapDfSort))) == NULL) { /* Allocate here for memory affinity as it is a private array */
     errorPrint ("kgraphMapDfLoop: out of memory");
     loopptr->abrtval = 1;
-    goto abort;
+    goto abort0;
   }
 
   if (velotax == NULL) {
@@ -539,8 +537,14 @@ abort : ;                                         /* If overflow occured, resume
       parttax[vertnum] = difntax[vertnum].partval;
   }
 
-  if (sorttab != NULL)
-    memFree (sorttab);                            /* Free local array */
+  memFree (sorttab);                              /* Free local array */
+  return;
+
+abort0 : ;                                        /* If thread cannot start computations                                */
+#ifndef KGRAPHMAPDFNOTHREAD
+  threadBarrier (descptr);                        /* Perform same synchronizations as other threads, which will then quit */
+  threadBarrier (descptr);
+#endif /* KGRAPHMAPDFNOTHREAD */
 }
 
 /*****************************/
-- 
2.43.0


From 066270d1611616d10c2898b19520aaf009d5595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:46 +0000
Subject: [PATCH 010/153] fix: kgraphMapRbVfloSplit misclassified the last
 fixed vertex slot

---
 src/libscotch/kgraph_map_rb.c | 61 +++++++++++------------------------
 1 file changed, 18 insertions(+), 43 deletions(-)

diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7256549..55964ed 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -337,60 +337,36 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
 
   vflomax = vflonbr;
   if (archVar (archptr) == 0) {
-    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum < vflonnd; ) {
-      while (1) {
+    for (vflonum = 0, vflonnd = vflonbr - 1; vflonum <= vflonnd; ) {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-        int                 o;
+      int                 o;
 
-        o =
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-        archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
-#ifdef SCOTCH_DEBUG_KGRAPH2
-        if (o != 0) {
-          errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
-          return;
-        }
+      o =
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-        if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
-          compload0 += vflotab[vflonum].veloval;  /* Fixed vertex belongs to first subdomain                                    */
-          if (++ vflonum > vflonnd)               /* If passed beyond the limit of the second subdomain                         */
-            goto quit;
-        }
-        else {
+      archDomTerm (archptr, &domndat, vflotab[vflonum].termnum);
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
-            return;
-          }
+      if (o != 0) {
+        errorPrint ("kgraphMapRbVfloSplit: internal error (1)");
+        return;
+      }
 #endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[0], &domndat) == 1) { /* If terminal vertex subdomain included in first subdomain */
+        compload0 += vflotab[vflonum].veloval;    /* Fixed vertex belongs to first subdomain                                  */
+        vflonum ++;
+        continue;                                 /* Keep it in place */
       }
-      while (1) {
-        archDomTerm (archptr, &domndat, vflotab[vflonnd].termnum);
-        if (archDomIncl (archptr, &domnsubtab[1], &domndat) == 1) { /* If terminal vertex subdomain included in second subdomain */
-          compload1 += vflotab[vflonnd].veloval;  /* Fixed vertex belongs to second subdomain                                    */
-          if (-- vflonnd <= vflonum) {            /* If matched the location of a slot that also belongs to second subdomain     */
-            compload1 += vflotab[vflonnd].veloval; /* Add load of reached slot to second subdomain                               */
-            goto quit;
-          }
-        }
-        else {
 #ifdef SCOTCH_DEBUG_KGRAPH2
-          if (archDomIncl (archptr, &domnsubtab[0], &domndat) != 1) { /* If terminal vertex subdomain not included in first subdomain */
-            errorPrint ("kgraphMapRbVfloSplit: internal error (3)");
-            return;
-          }
-#endif /* SCOTCH_DEBUG_KGRAPH2 */
-          break;                                  /* We have found a candidate for swapping */
-        }
+      if (archDomIncl (archptr, &domnsubtab[1], &domndat) != 1) { /* If terminal vertex subdomain not included in second subdomain */
+        errorPrint ("kgraphMapRbVfloSplit: internal error (2)");
+        return;
       }
+#endif /* SCOTCH_DEBUG_KGRAPH2 */
+      compload1 += vflotab[vflonum].veloval;      /* Fixed vertex belongs to second subdomain */
 
       vflodat          = vflotab[vflonum];        /* Swap slots */
       vflotab[vflonum] = vflotab[vflonnd];
       vflotab[vflonnd] = vflodat;
-      compload0 += vflotab[vflonum ++].veloval;
-      compload1 += vflotab[vflonnd --].veloval;
+      vflonnd --;                                 /* One less slot to consider */
     }
   }
   else {                                          /* If variable-sized architecture, pseudo-terminals may not always be included */
@@ -430,7 +406,6 @@ Gnum * restrict const             vflowgttab)     /*+ Fixed vertex load in each
     }
   }
 
-quit:
   vflonbrtab[0] = vflonum;
   vflonbrtab[1] = vflomax - vflonum;
   vflowgttab[0] = compload0;
-- 
2.43.0


From 69f99f36d72c446053b147e0745038d7edb6d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:24 +0000
Subject: [PATCH 011/153] fix: kgraphBand must start from the base value when
 linking anchors to fixed vertices

---
 src/libscotch/kgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_band.c b/src/libscotch/kgraph_band.c
index 42c2a9a..52f2825 100644
--- a/src/libscotch/kgraph_band.c
+++ b/src/libscotch/kgraph_band.c
@@ -583,7 +583,7 @@ abort:
 
   if (pfixtax != NULL) {                          /* We have fixed vertices */
     memFree (termhashtab);                        /* Free group leader      */
-    for (bandvertnum = bandgrafptr->s.baseval, bandedgenum = 0; bandvertnum < bandvertnnd;
+    for (bandvertnum = bandedgenum = bandgrafptr->s.baseval; bandvertnum < bandvertnnd;
         bandvertnum ++) {                         /* Link anchors to vertices */
       for ( ; bandedgenum < bandverttax[bandvertnum + 1]; bandedgenum ++) {
         Gnum                  bandvertend;
-- 
2.43.0


From 6568b7471270c5d1a64068543ad27c286a211563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:24 +0000
Subject: [PATCH 012/153] fix: bgraphBipartGp overran vertex array when part 1
 cannot be filled

---
 src/libscotch/bgraph_bipart_gp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph_bipart_gp.c b/src/libscotch/bgraph_bipart_gp.c
index ed266c6..a0c6274 100644
--- a/src/libscotch/bgraph_bipart_gp.c
+++ b/src/libscotch/bgraph_bipart_gp.c
@@ -128,8 +128,11 @@ const BgraphBipartGpParam * const paraptr)        /*+ Method parameters +*/
     Gnum                diamdeg;                  /* Degree of current diameter vertex                  */
     int                 diamflag;                 /* Flag set if improvement in diameter between passes */
 
-    while (vexxtax[rootnum].passnum != 0)         /* Find first unallocated vertex */
+    while ((rootnum < grafptr->s.vertnnd) &&      /* Find first unallocated vertex */
+           (vexxtax[rootnum].passnum != 0))
       rootnum ++;
+    if (rootnum >= grafptr->s.vertnnd)            /* If all vertices already allocated, nothing more to move */
+      break;
 
     for (diamnum = rootnum, diamval = diamdeg = 0, diamflag = 1, passnum = 1; /* Start from root   */
          (passnum < paraptr->passnbr) && (diamflag -- != 0); passnum ++) { /* Loop if improvements */
-- 
2.43.0


From 7a21747778deba2fa737182052a7650bf8b4f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:24 +0000
Subject: [PATCH 013/153] fix: bgraphZero must not count fixed vertex loads in
 compload0

---
 src/libscotch/bgraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph.c b/src/libscotch/bgraph.c
index 120b9d2..b3894fc 100644
--- a/src/libscotch/bgraph.c
+++ b/src/libscotch/bgraph.c
@@ -243,7 +243,7 @@ Bgraph * restrict const     grafptr)
 {
   Gnum                compload0;
 
-  compload0 = grafptr->s.velosum + grafptr->vfixload[0];
+  compload0 = grafptr->s.velosum;                 /* Fixed loads are not part of compload0 */
   grafptr->fronnbr      = 0;                      /* No frontier vertices */
   grafptr->compload0dlt = compload0 - grafptr->compload0avg;
   grafptr->compload0    = compload0;
-- 
2.43.0


From df6d23c65dc4d6c54bb40de9bf547be5b8ddad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:16 +0000
Subject: [PATCH 014/153] fix: graphMapView must consider all based vertices
 when computing part diameters

---
 src/libscotch/library_graph_map_view.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 2d42a6a..1d31e2c 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -126,11 +126,11 @@ const Anum                  partval)              /*+ Part value +*/
   for (passnum = 1, rootnum = grafptr->baseval; ; passnum ++) { /* For all connected components */
     Gnum                diamnum;                  /* Vertex which achieves diameter             */
 
-    while ((rootnum < grafptr->vertnbr) &&
+    while ((rootnum < grafptr->vertnnd) &&
            ((vexxtax[rootnum].passnum != 0) ||    /* Find first unallocated vertex */
             (parttax[rootnum] != partval)))
       rootnum ++;
-    if (rootnum >= grafptr->vertnbr)              /* Exit if all of graph processed */
+    if (rootnum >= grafptr->vertnnd)              /* Exit if all of graph processed */
       break;
 
     diambase = ++ diamdist;                       /* Start from previous distance */
-- 
2.43.0


From 5f42629e794db02d5843efcebdd1314402be2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:16 +0000
Subject: [PATCH 015/153] fix: graphRemapView must base the old part array and
 measure migration distances

---
 src/libscotch/library_graph_map_view.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 1d31e2c..ecc72af 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -268,7 +268,7 @@ FILE * const                  stream)             /*+ Output stream
 
   if (libmapoptr != NULL) {
     lmaoptr = (LibMapping *) libmapoptr;
-    parotax = lmaoptr->parttab;
+    parotax = lmaoptr->parttab - grafptr->baseval;
   }
   else {
     lmaoptr = NULL;
@@ -485,7 +485,7 @@ FILE * const                  stream)             /*+ Output stream
       if (parotax[vertnum] != parttax[vertnum]) {
         migrnbr ++;
         archDomTerm (archptr, &domnorg, parotax[vertnum]); /* Get terminal domains */
-        archDomTerm (archptr, &domnold, parotax[vertnum]);
+        archDomTerm (archptr, &domnold, parttax[vertnum]);
         migrdistavg += archDomDist (archptr, &domnorg, &domnold);
         migrloadavg += (grafptr->velotax == NULL) ? 1 : grafptr->velotax[vertnum];
         migrcostsum += emraval * ((vmlotax != NULL) ? vmlotax[vertnum] : 1);
-- 
2.43.0


From 197366da74e713e5daac6edcd69f61625747161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:16 +0000
Subject: [PATCH 016/153] fix: graphMapView must not renumber the parts of the
 mapping it displays

---
 src/libscotch/library_graph_map_view.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index ecc72af..43d595d 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -200,7 +200,8 @@ FILE * const                  stream)             /*+ Output stream
 {
   const Arch * restrict     archptr;
   LibMapping * restrict     lmaoptr;
-  Anum * restrict           parttax;              /* Part array                                   */
+  Anum * restrict           parttax;              /* Array of compacted part numbers              */
+  const Anum * restrict     termtax;              /* Part array                                   */
   Anum * restrict           parotax;              /* Old part array                               */
   MappingSort * restrict    domntab;              /* Pointer to domain sort array                 */
   ArchDom                   domnfrst;             /* Largest domain in architecture               */
@@ -287,18 +288,20 @@ FILE * const                  stream)             /*+ Output stream
   }
 #endif /* SCOTCH_DEBUG_LIBRARY1 */
   archptr = lmapptr->archptr;
-  parttax = lmapptr->parttab;
+  termtax = lmapptr->parttab - grafptr->baseval;
 
   if (memAllocGroup ((void **) (void *)
                      &domntab, (size_t) ((grafptr->vertnbr + 1) * sizeof (MappingSort)),
+                     &parttax, (size_t) (grafptr->vertnbr       * sizeof (Anum)),
                      &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphMapView) ": out of memory");
     return (1);
   }
 
   for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
-    domntab[vertnum].labl = parttax[vertnum];     /* Un-based array at this stage    */
+    domntab[vertnum].labl = termtax[vertnum + grafptr->baseval];
     domntab[vertnum].peri = vertnum + grafptr->baseval; /* Build inverse permutation */
+    parttax[vertnum]      = ~0;                   /* Un-based array at this stage    */
   }
   parttax -= grafptr->baseval;
   domntab[grafptr->vertnbr].labl = ARCHDOMNOTTERM; /* TRICK: avoid testing (i+1)   */
@@ -456,14 +459,14 @@ FILE * const                  stream)             /*+ Output stream
   for (vertnum = grafptr->baseval; vertnum < grafptr->vertnnd; vertnum ++) {
     Gnum                edgenum;
 
-    if (parttax[vertnum] == ~0)                   /* Skip unmapped vertices */
+    if (termtax[vertnum] == ~0)                   /* Skip unmapped vertices */
       continue;
     for (edgenum = verttax[vertnum];
          edgenum < vendtax[vertnum]; edgenum ++) {
-      if (parttax[edgetax[edgenum]] == ~0)
+      if (termtax[edgetax[edgenum]] == ~0)
         continue;
-      archDomTerm (archptr, &domnorg, parttax[vertnum]); /* Get terminal domains */
-      archDomTerm (archptr, &domnend, parttax[edgetax[edgenum]]);
+      archDomTerm (archptr, &domnorg, termtax[vertnum]); /* Get terminal domains */
+      archDomTerm (archptr, &domnend, termtax[edgetax[edgenum]]);
       distval = archDomDist (archptr, &domnorg, &domnend);
       if (edlotax != NULL)                        /* Get edge weight if any */
         edloval = edlotax[edgenum];
@@ -480,12 +483,12 @@ FILE * const                  stream)             /*+ Output stream
   migrcostsum = 0;
   if (lmaoptr != NULL) {
     for (vertnum = grafptr->baseval; vertnum < grafptr->vertnnd; vertnum ++) {
-      if ((parttax[vertnum] == -1) || (parotax[vertnum] == -1))
+      if ((termtax[vertnum] == -1) || (parotax[vertnum] == -1))
         continue;
-      if (parotax[vertnum] != parttax[vertnum]) {
+      if (parotax[vertnum] != termtax[vertnum]) {
         migrnbr ++;
         archDomTerm (archptr, &domnorg, parotax[vertnum]); /* Get terminal domains */
-        archDomTerm (archptr, &domnold, parttax[vertnum]);
+        archDomTerm (archptr, &domnold, termtax[vertnum]);
         migrdistavg += archDomDist (archptr, &domnorg, &domnold);
         migrloadavg += (grafptr->velotax == NULL) ? 1 : grafptr->velotax[vertnum];
         migrcostsum += emraval * ((vmlotax != NULL) ? vmlotax[vertnum] : 1);
-- 
2.43.0


From f8de2fc674bef763fedeca731a8eefb725219afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 017/153] fix: archMeshXDomDist must not use the distances of a
 torus

---
 src/libscotch/arch_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 0cc08ce..6bd54c1 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -913,7 +913,7 @@ const ArchMeshXDom * const  dom1ptr)
   for (dimnnum = 0, distval = 0; dimnnum < archptr->dimnnbr; dimnnum ++) {
     disttmp = abs (dom0ptr->c[dimnnum][0] + dom0ptr->c[dimnnum][1] -
                    dom1ptr->c[dimnnum][0] - dom1ptr->c[dimnnum][1]);
-    distval += (disttmp > archptr->c[dimnnum]) ? (2 * archptr->c[dimnnum] - disttmp) : disttmp;
+    distval += disttmp;                           /* No wraparound edges in meshes */
   }
 
   return (distval >> 1);
-- 
2.43.0


From b600dec4205c50b5fc78856c0e580d4055f03dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:06 +0000
Subject: [PATCH 018/153] fix: archTleafDomIncl must test inclusion, not
 overlapping

---
 src/libscotch/arch_tleaf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index 39a8f3d..da8f8c6 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -655,8 +655,8 @@ const ArchTleafDom * const  dom1ptr)
       return (0);
   }
 
-  return (((idx0min >= (idx1min + idx1nbr)) ||
-           (idx1min >= (idx0min + idx0nbr))) ? 0 : 1);
+  return (((idx1min < idx0min) ||
+           ((idx1min + idx1nbr) > (idx0min + idx0nbr))) ? 0 : 1);
 }
 
 /***********************************/
-- 
2.43.0


From 1a5595b0604cc12312855483488993b02ebe1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 019/153] fix: hgraphOrderBl must split existing blocks with
 proper weights and indices

---
 src/libscotch/hgraph_order_bl.c | 222 ++++++++++++++++++--------------
 1 file changed, 126 insertions(+), 96 deletions(-)

diff --git a/src/libscotch/hgraph_order_bl.c b/src/libscotch/hgraph_order_bl.c
index 1bb4daa..1be9c3d 100644
--- a/src/libscotch/hgraph_order_bl.c
+++ b/src/libscotch/hgraph_order_bl.c
@@ -65,6 +65,116 @@
 #include "hgraph_order_bl.h"
 #include "hgraph_order_st.h"
 
+/************************************/
+/*                                  */
+/* This routine splits the existing */
+/* column blocks of a block tree.   */
+/*                                  */
+/************************************/
+
+/* This routine recursively splits the leaves
+** of the given column block tree, without
+** changing the ordering.
+** It returns:
+** - 0   : if the blocks could be split.
+** - !0  : on error.
+*/
+
+static
+int
+hgraphOrderBl2 (
+Order * restrict const      ordeptr,
+const Gnum                  ordenum,              /*+ Zero-based ordering number of first column +*/
+OrderCblk * restrict const  cblkptr,              /*+ Column block (tree) to split               +*/
+const Gnum * restrict const velotax,              /*+ Column weights, by original index, or NULL +*/
+const Gnum                  cblkmin)              /*+ Minimum weight of column blocks            +*/
+{
+  Gnum                cblknbr;                    /* Number of column blocks for splitting */
+  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  Gnum                vnlosum;                    /* Weight of the column block            */
+  Gnum                vnodnum;
+  Gnum                cblknum;
+
+  const Gnum * restrict const peritab = ordeptr->peritab + ordenum;
+  const Gnum                  vnodnbr = cblkptr->vnodnbr;
+
+  if (cblkptr->cblktab != NULL) {                 /* If block already partitioned */
+    for (cblknum = 0, vnodnum = ordenum; cblknum < cblkptr->cblknbr; cblknum ++) {
+      if (hgraphOrderBl2 (ordeptr, vnodnum, &cblkptr->cblktab[cblknum], velotax, cblkmin) != 0)
+        return (1);
+      vnodnum += cblkptr->cblktab[cblknum].vnodnbr;
+    }
+    return (0);
+  }
+
+  vnlosum = vnodnbr;                              /* Compute weight of column block */
+  if (velotax != NULL) {
+    for (vnodnum = 0, vnlosum = 0; vnodnum < vnodnbr; vnodnum ++)
+      vnlosum += velotax[peritab[vnodnum]];
+  }
+
+  if ((vnodnbr <= 1) ||                           /* If block has only one column */
+      ((vnlosum / 2) < cblkmin))                  /* Or does not need to be split */
+    return (0);
+
+  cblknbr = vnlosum / cblkmin;                    /* Get new (maximum) number of blocks  */
+  cblksiz = MIN (cblknbr, vnodnbr);               /* No more column blocks than columns  */
+
+  if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
+    errorPrint ("hgraphOrderBl2: out of memory");
+    return (1);
+  }
+
+  if (velotax == NULL) {                          /* For unweighted graphs, split blocks evenly */
+    for (cblknum = 0; cblknum < cblknbr; cblknum ++) {
+      cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
+      cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (vnodnbr, cblknbr, cblknum);
+      cblkptr->cblktab[cblknum].cblknbr = 0;
+      cblkptr->cblktab[cblknum].cblktab = NULL;
+    }
+  }
+  else {
+    Gnum                vnlocur;                  /* Current accumulated weight                     */
+    Gnum                vnodbas;                  /* Starting permuted node index for current block */
+    Gnum                cblkidx;                  /* Ghost column block index for even splitting    */
+
+    for (cblknum = cblkidx = 0, vnodnum = vnodbas = 0, vnlocur = 0; vnodnum < vnodnbr; cblknum ++) { /* As long as columns remain */
+      Gnum                vnlomax;                /* Maximum weight to reach for this subblock */
+
+      do {                                        /* Compute bound of next subblock */
+        cblkidx ++;
+        vnlomax = DATASCAN (vnlosum, cblknbr, cblkidx);
+      } while (vnlomax <= vnlocur);               /* Next bound must be higher than current state */
+
+      do                                          /* Accumulate weights until bound is reached */
+        vnlocur += velotax[peritab[vnodnum ++]];
+      while (vnlocur < vnlomax);
+      if (vnlocur >= vnlosum)                     /* Last block takes all remaining columns */
+        vnodnum = vnodnbr;
+
+      cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF; /* Build relevant column block */
+      cblkptr->cblktab[cblknum].vnodnbr = vnodnum - vnodbas;
+      cblkptr->cblktab[cblknum].cblknbr = 0;
+      cblkptr->cblktab[cblknum].cblktab = NULL;
+      vnodbas = vnodnum;                          /* Reset base for next block */
+    }
+    cblknbr = cblknum;                            /* Use effective number of blocks */
+  }
+
+  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
+  cblkptr->cblknbr = cblknbr;
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_lock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+  ordeptr->treenbr += cblknbr;                    /* That many more tree nodes    */
+  ordeptr->cblknbr += cblknbr - 1;                /* That many more column blocks */
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_unlock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+
+  return (0);
+}
+
 /*****************************/
 /*                           */
 /* This is the main routine. */
@@ -85,8 +195,9 @@ const Gnum                                ordenum, /*+ Zero-based ordering numbe
 OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
 const HgraphOrderBlParam * restrict const paraptr)
 {
-  Gnum                cblknbr;                    /* Number of column blocks for splitting */
-  Gnum                cblksiz;                    /* Number of allocated column blocks     */
+  Gnum * restrict     velotab;                    /* Column weights, by original index */
+  Gnum                vertnum;
+  int                 o;
 
   if (paraptr->cblkmin <= 0) {
     errorPrint ("hgraphOrderBl: invalid minimum block size");
@@ -96,103 +207,22 @@ const HgraphOrderBlParam * restrict const paraptr)
   if (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
     return (1);
 
-  if (cblkptr->cblktab == NULL) {                 /* If single column block */
-#ifdef SCOTCH_DEBUG_HGRAPH2
-    if (cblkptr->vnodnbr != grafptr->vnohnbr) {
-      errorPrint ("hgraphOrderBl: invalid column block");
-      return (1);
-    }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-
-    if ((cblkptr->vnodnbr <= 1) ||                /* Il block has only one column    */
-        (grafptr->vnlosum < (2 * paraptr->cblkmin))) /* Or does not need to be split */
-      return (0);
-
-    cblknbr = grafptr->vnlosum / paraptr->cblkmin; /* Get new (maximum) number of blocks */
-    cblksiz = MIN (cblknbr, grafptr->vnohnbr);    /* No more column blocks than columns  */
-
-    if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblksiz * sizeof (OrderCblk))) == NULL) {
-      errorPrint ("hgraphOrderBl: out of memory");
-      return (1);
-    }
+  if (grafptr->s.velotax == NULL)                 /* If all columns have same weight */
+    return (hgraphOrderBl2 (ordeptr, ordenum, cblkptr, NULL, paraptr->cblkmin));
 
-    if (grafptr->s.velotax == NULL) {             /* For unweighted graphs, split blocks evenly */
-      Gnum                cblknum;
+  if (grafptr->s.vnumtax == NULL)                 /* If graph is the original graph */
+    return (hgraphOrderBl2 (ordeptr, ordenum, cblkptr, grafptr->s.velotax, paraptr->cblkmin));
 
-      for (cblknum = 0; cblknum < cblksiz; cblknum ++) { /* No more column blocks than those allocated */
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
-        cblkptr->cblktab[cblknum].vnodnbr = DATASIZE (grafptr->vnlosum, cblknbr, cblknum);
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-      }
-    }
-    else {
-      Gnum                vnlomax;                /* Maxumum weight to reach for this subblock      */
-      Gnum                vnlosum;                /* Current accumulated weight                     */
-      Gnum                vnodnum;                /* Current permuted node index                    */
-      Gnum                vnodbas;                /* Starting permuted node index for current block */
-      Gnum                cblknum;                /* Current number of column subblocks             */
-      Gnum                cblkidx;                /* Ghost column block index for even splitting    */
-
-      vnlomax =
-      vnlosum = 0;
-      vnodbas =
-      vnodnum = 0;
-      cblknum =
-      cblkidx = 0;
-      do {                                        /* Go on filling column blocks    */
-#ifdef SCOTCH_DEBUG_HGRAPH2
-        if (cblknum >= cblksiz) {                 /* No more column blocks than those allocated */
-          errorPrint ("hgraphOrderBl: internal error (1)");
-          return (1);
-        }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-        do {                                      /* Compute bound of next subblock */
-          cblkidx ++;
-#ifdef SCOTCH_DEBUG_HGRAPH2
-          if (cblkidx > cblknbr) {                /* No more ghost indices than ghost column blocks */
-            errorPrint ("hgraphOrderBl: internal error (2)");
-            return (1);
-          }
-#endif /* SCOTCH_DEBUG_HGRAPH2 */
-          vnlomax = DATASCAN (grafptr->vnlosum, cblknbr, cblkidx); /* Bound of next subblock      */
-        } while (vnlomax <= vnlosum);             /* Next bound must be higher than current state */
-
-        do {                                      /* Accumulate weights until bound is reached */
-          vnlosum += grafptr->s.velotax[ordeptr->peritab[vnodnum]];
-          vnodnum ++;
-        } while (vnlosum < vnlomax);
-
-        cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF; /* Build relevant column block */
-        cblkptr->cblktab[cblknum].vnodnbr = vnodnum - vnodbas;
-        cblkptr->cblktab[cblknum].cblknbr = 0;
-        cblkptr->cblktab[cblknum].cblktab = NULL;
-        cblknum ++;                               /* One more effective column block */
-        vnodbas = vnodnum;                        /* Reset base for next block       */
-      } while (vnlosum < grafptr->vnlosum);       /* As long as columns remain       */
-
-      cblknbr = cblknum;                          /* Use effective number of blocks */
-    }
-
-    cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
-    cblkptr->cblknbr = cblknbr;
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_lock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
-    ordeptr->treenbr += cblknbr;                  /* That many more tree nodes    */
-    ordeptr->cblknbr += cblknbr - 1;              /* That many more column blocks */
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_unlock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
+  if ((velotab = (Gnum *) memAlloc (ordeptr->vnodnbr * sizeof (Gnum))) == NULL) {
+    errorPrint ("hgraphOrderBl: out of memory");
+    return (1);
   }
-  else {                                          /* Block already partitioned */
-    Gnum                cblknum;
+  for (vertnum = grafptr->s.baseval; vertnum < grafptr->vnohnnd; vertnum ++)
+    velotab[grafptr->s.vnumtax[vertnum] - ordeptr->baseval] = grafptr->s.velotax[vertnum];
 
-    for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hgraphOrderBl (grafptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
-        return (1);
-    }
-  }
+  o = hgraphOrderBl2 (ordeptr, ordenum, cblkptr, velotab - ordeptr->baseval, paraptr->cblkmin);
 
-  return (0);
+  memFree (velotab);
+
+  return (o);
 }
-- 
2.43.0


From 1c5f9d699655a307c3075332037603c0379ca9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 020/153] fix: hgraphOrderCc must start numbering components at
 its own ordering index

---
 src/libscotch/hgraph_order_cc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cc.c b/src/libscotch/hgraph_order_cc.c
index aacbb03..0703b97 100644
--- a/src/libscotch/hgraph_order_cc.c
+++ b/src/libscotch/hgraph_order_cc.c
@@ -177,7 +177,7 @@ const HgraphOrderCcParam * restrict const paraptr)
     cblkptr->cblktab[rootnum].cblktab = NULL;
   }
 
-  for (rootnum = 0, indordenum = 0; rootnum < rootnbr; rootnum ++) {
+  for (rootnum = 0, indordenum = ordenum; rootnum < rootnbr; rootnum ++) {
     Gnum                indvnohnbr;
     int                 o;
 
-- 
2.43.0


From c697fedbbd0e000f36187db1632042d4ba48fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 021/153] fix: vgraphSeparateEs must propagate the execution
 context

---
 src/libscotch/vgraph_separate_es.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index 65e8b82..f5905a9 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -490,6 +490,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
   actgrafdat.veextax   = NULL;                    /* No external gains                           */
   actgrafdat.parttax   = grafptr->parttax;        /* Inherit arrays from vertex separation graph */
   actgrafdat.frontab   = grafptr->frontab;
+  actgrafdat.contptr   = grafptr->contptr;        /* Use same execution context */
   bgraphInit2 (&actgrafdat, 1, grafptr->dwgttab[0], grafptr->dwgttab[1], 0, 0); /* Complete initialization and set all vertices to part 0 */
 
   if (bgraphBipartSt (&actgrafdat, paraptr->strat) != 0) { /* Bipartition active subgraph */
-- 
2.43.0


From 6135e6ca81ccdab0e781f4c8f1327caa993dfa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 022/153] fix: hgraphOrderNd must return the status of leaf
 orderings

---
 src/libscotch/hgraph_order_nd.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libscotch/hgraph_order_nd.c b/src/libscotch/hgraph_order_nd.c
index 8982714..8d63974 100644
--- a/src/libscotch/hgraph_order_nd.c
+++ b/src/libscotch/hgraph_order_nd.c
@@ -175,8 +175,7 @@ const HgraphOrderNdParam * restrict const paraptr)
   if ((vspgrafdat.compsize[0] == 0) ||            /* If could not separate more */
       (vspgrafdat.compsize[1] == 0)) {
     vgraphExit    (&vspgrafdat);                  /* Free useless space */
-    hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    return (0);                                   /* Leaf has been processed */
+    return (hgraphOrderSt (grafptr, ordeptr, ordenum, cblkptr, paraptr->ordstratlea)); /* Order this leaf */
   }
 
   vsplisttab[0].vnumnbr = vspgrafdat.compsize[0]; /* Build vertex lists within frontier array */
-- 
2.43.0


From 5084d7207f57e01ea933e9efc4f2b81f2adb44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 023/153] fix: hgraphOrderKp must propagate the execution
 context

---
 src/libscotch/hgraph_order_kp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/hgraph_order_kp.c b/src/libscotch/hgraph_order_kp.c
index 4288c35..d1db3a4 100644
--- a/src/libscotch/hgraph_order_kp.c
+++ b/src/libscotch/hgraph_order_kp.c
@@ -111,6 +111,7 @@ const HgraphOrderKpParam * restrict const paraptr)
 
   SCOTCH_archCmplt ((SCOTCH_Arch *) &archdat, (SCOTCH_Num) partnbr); /* Build complete graph architecture */
 
+  actgrafdat.contptr = grafptr->contptr;          /* Use same context as ordering */
   if ((kgraphInit  (&actgrafdat, &actgrafdat.s, &archdat, NULL, 0, NULL, 1, 1, NULL) != 0) ||
       (kgraphMapSt (&actgrafdat, paraptr->strat) != 0)) {
     errorPrint ("hgraphOrderKp: cannot compute partition");
-- 
2.43.0


From 1a9340f60ffc97d882ac1035daf4847dfc8fb614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 024/153] fix: hgraphOrderCp must place its permutation at its
 own ordering index

---
 src/libscotch/hgraph_order_cp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_order_cp.c b/src/libscotch/hgraph_order_cp.c
index 20a65d0..a3a5473 100644
--- a/src/libscotch/hgraph_order_cp.c
+++ b/src/libscotch/hgraph_order_cp.c
@@ -475,7 +475,7 @@ loop_failed: ;
   coarvpostax = coargrafdat.s.verttax;            /* Re-cycle verttab (not velotab as may be merged with coarvsiztab) */
   coarperitax = coarperitab - coargrafdat.s.baseval;
 
-  for (coarvertnum = coargrafdat.s.baseval, finevsizsum = 0; /* Compute initial indices for inverse permutation expansion */
+  for (coarvertnum = coargrafdat.s.baseval, finevsizsum = ordenum; /* Compute initial indices for inverse permutation expansion */
        coarvertnum < coargrafdat.vnohnnd; coarvertnum ++) {
     coarvpostax[coarperitax[coarvertnum]] = finevsizsum;
     finevsizsum += coarvsiztax[coarperitax[coarvertnum]];
-- 
2.43.0


From 35376d50573542667e92143e2064d35bb6e6b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 025/153] fix: hallOrderHdR2Halmd must account for the weight
 of isolated variables

---
 src/libscotch/hall_order_hd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index b3b07e1..232f29b 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -495,7 +495,7 @@ Gnum * restrict     w)                            /* Flag array
       head[deg] = i;
     }
     else {
-      nel ++;
+      nel += nv[i];
       elen[i] = - nel;
       pe[i]   = 0;
       w[i]    = 0;
-- 
2.43.0


From 6c5166d7311d3cbab12e10ee85f9267c1d63e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:49 +0000
Subject: [PATCH 026/153] fix: graphOrderComputeList must drop the edge load
 sum along with edge loads and report invalid orderings

---
 src/libscotch/library_graph_order.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 3ecb02e..a241366 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -291,6 +291,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   memCpy (&halgrafdat.s, srcgrafptr, sizeof (Graph)); /* Copy non-halo graph data */
   halgrafdat.s.flagval &= ~GRAPHFREETABS;         /* Do not allow to free arrays  */
   halgrafdat.s.edlotax  = NULL;                   /* Don't mind about edge loads  */
+  halgrafdat.s.edlosum  = halgrafdat.s.edgenbr;
   halgrafdat.vnohnbr    = halgrafdat.s.vertnbr;   /* All vertices are non-halo    */
   halgrafdat.vnohnnd    = halgrafdat.s.vertnnd;   /* No halo present              */
   halgrafdat.vnhdtax    = halgrafdat.s.vendtax;   /* End of non-halo vertices     */
@@ -369,8 +370,10 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 
 #ifdef SCOTCH_DEBUG_LIBRARY2
-  if (orderCheck (&libordeptr->o) != 0)
+  if (orderCheck (&libordeptr->o) != 0) {
+    o = 1;
     goto abort;
+  }
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
   if (libordeptr->permtab != NULL)                /* Build direct permutation if wanted */
-- 
2.43.0


From 6157610e8877b3f27c5280b78d100b73d5cc65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:11 +0000
Subject: [PATCH 027/153] fix: vgraphSeparateFm must not loop forever on passes
 that do not improve the separator

---
 src/libscotch/vgraph_separate_fm.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/vgraph_separate_fm.c b/src/libscotch/vgraph_separate_fm.c
index 07f6fad..544e2ee 100644
--- a/src/libscotch/vgraph_separate_fm.c
+++ b/src/libscotch/vgraph_separate_fm.c
@@ -175,6 +175,8 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
   Gnum                            comploaddltbst; /* Unbalance of best solution to date      */
   Gnum                            compload2;      /* Current load of separator               */
   Gnum                            compload2bst;   /* Separator load of best solution to date */
+  Gnum                            comploaddltold; /* Unbalance at beginning of pass          */
+  Gnum                            compload2old;   /* Separator load at beginning of pass     */
   Gnum                            mswpnum;        /* Number of current move sweep            */
   Gnum                            compsize1add;   /* Number of vertices to add to counters   */
   Gnum                            compsize1sub;
@@ -331,8 +333,10 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
         gainTablAdd (tablptr, &hashtab[hashnum].gainlink1, hashtab[hashnum].compgain[1]);
       }
     }
-    compload2   = compload2bst;                   /* Restore best separator parameters */
-    comploaddlt = comploaddltbst;
+    compload2old   =                              /* Record state at beginning of pass */
+    compload2      = compload2bst;                /* Restore best separator parameters */
+    comploaddltold =
+    comploaddlt    = comploaddltbst;
     comploadabsdltbst = abs (comploaddltbst);
     if (comploadabsdltbst > comploaddltmax)       /* If the former state had a higher maximum imbalance ratio */
       comploaddltmax = comploadabsdltbst;         /* Restore this maximum imbalance ratio                     */
@@ -636,6 +640,14 @@ const VgraphSeparateFmParam * const paraptr)      /*+ Method parameters +*/
         }
       }
     }
+    comploaddltold = abs (comploaddltold);
+    comploadabsdltbst = abs (comploaddltbst);
+    if (MAX (comploadabsdltbst, comploaddltmat) > MAX (comploaddltold, comploaddltmat)) /* If balance worsened */
+      moveflag = 0;                               /* Pass is not useful, so as not to cycle forever            */
+    else if ((MAX (comploadabsdltbst, comploaddltmat) == MAX (comploaddltold, comploaddltmat)) &&
+             ((compload2bst > compload2old) ||    /* Or if same balance and no better separator */
+              ((compload2bst == compload2old) && (comploadabsdltbst >= comploaddltold))))
+      moveflag = 0;
   } while ((moveflag != 0) &&                     /* As long as vertices are moved                          */
            (-- passnbr != 0));                    /* And we are allowed to loop (TRICK for negative values) */
 
-- 
2.43.0


From 8c5d950b8919f624a1f7b83fc75b0cfa84282e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:41 +0000
Subject: [PATCH 028/153] fix: graphColor must not give the color of the
 current round to neighbors of vertices just colored

---
 src/libscotch/library_graph_color.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_color.c b/src/libscotch/library_graph_color.c
index 9065781..55d3d33 100644
--- a/src/libscotch/library_graph_color.c
+++ b/src/libscotch/library_graph_color.c
@@ -142,7 +142,8 @@ const SCOTCH_Num                    flagval)      /* Flag value (not used)
 
         vertend = edgetax[edgenum];
 
-        if (colotax[vertend] >= 0)
+        if ((colotax[vertend] >= 0) &&            /* If neighbor has already been colored */
+            (colotax[vertend] < colonum))         /* With a color of a previous round     */
           continue;
 
         randend = randtax[vertend];
-- 
2.43.0


From 52df2aca67118f8314465ffbcb5a1ed2a3a33441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:41 +0000
Subject: [PATCH 029/153] fix: graphCoarsenMatch must tell when the contraction
 ratio is not enforced

---
 src/libscotch/graph_coarsen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index 1c23fad..2852547 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -677,6 +677,12 @@ Context * restrict const          contptr)        /*+ Execution context
   if (o != 0)
     return (o);
 
+  if (coardat.coarvertnbr >= coardat.coarvertmax) { /* If contraction ratio not enforced */
+    if (*finemateptr == NULL)                     /* If mating array locally allocated   */
+      memFree (coardat.finematetax + finegrafptr->baseval);
+    return (1);
+  }
+
   *coarvertptr = coardat.coarvertnbr;
   *finemateptr = coardat.finematetax + finegrafptr->baseval; /* Give back location of fine-to-coarse array */
 
-- 
2.43.0


From b55cab41be93b1b45ec343b386ca7a2ff24bdc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:41 +0000
Subject: [PATCH 030/153] fix: graphInduceList and graphInducePart must yield
 standalone graphs and accept context-bound graphs

---
 src/libscotch/library_graph_induce.c | 38 +++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/libscotch/library_graph_induce.c b/src/libscotch/library_graph_induce.c
index 050ff36..ee86cfd 100644
--- a/src/libscotch/library_graph_induce.c
+++ b/src/libscotch/library_graph_induce.c
@@ -66,10 +66,6 @@
 /* This routine builds the graph induced
 ** by the original graph and the list of
 ** selected vertices.
-** The induced vnumtab array is the list
-** array if the original graph does not have
-** a vnumtab, or the proper subset of the
-** original vnumtab else.
 ** It returns:
 ** - 0   : on success.
 ** - !0  : on error.
@@ -82,19 +78,20 @@ const SCOTCH_Num                    vnumnbr,
 const SCOTCH_Num * restrict const   vnumtab,
 SCOTCH_Graph * restrict const       indgrafptr)
 {
-  return (graphInduceList ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           (const Gnum) vnumnbr,
-                           (const Gnum * restrict const) vnumtab,
-                           (Graph * const) indgrafptr));
+  if (graphInduceList ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
+                       (const Gnum) vnumnbr,
+                       (const Gnum * restrict const) vnumtab,
+                       (Graph * const) indgrafptr) != 0)
+    return (1);
+
+  ((Graph *) indgrafptr)->vnumtax = NULL;         /* Standalone graph: do not refer to vertices of original graph; array freed with its group */
+
+  return (0);
 }
 
 /* This routine builds the graph induced
 ** by the original graph and the vector
 ** of selected vertices.
-** The induced vnumtab array is the list of
-** selected vertices if the original graph
-** does not have a vnumtab, or the proper
-** subset of the original vnumtab else.
 ** It returns:
 ** - 0   : on success.
 ** - !0  : on error.
@@ -108,9 +105,16 @@ const SCOTCH_GraphPart2 * restrict const  parttab,
 const SCOTCH_GraphPart2                   partval,
 SCOTCH_Graph * restrict const             indgrafptr)
 {
-  return (graphInducePart ((const Graph * restrict const) CONTEXTOBJECT (orggrafptr),
-                           ((GraphPart * restrict const) parttab) - ((const Graph * const) orggrafptr)->baseval,
-                           (const Gnum) vnumnbr,
-                           (const GraphPart) partval,
-                           (Graph * restrict const) indgrafptr));
+  const Graph * restrict const  srcgrafptr = (const Graph *) CONTEXTOBJECT (orggrafptr);
+
+  if (graphInducePart (srcgrafptr,
+                       ((GraphPart * restrict const) parttab) - srcgrafptr->baseval,
+                       (const Gnum) vnumnbr,
+                       (const GraphPart) partval,
+                       (Graph * restrict const) indgrafptr) != 0)
+    return (1);
+
+  ((Graph *) indgrafptr)->vnumtax = NULL;         /* Standalone graph: do not refer to vertices of original graph; array freed with its group */
+
+  return (0);
 }
-- 
2.43.0


From 55517d2b751abe35edeb1d2a7b19dc1105d7abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:14 +0000
Subject: [PATCH 031/153] fix: distinct process numbers must yield distinct
 pseudo-random sequences

---
 src/libscotch/common_integer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/common_integer.c b/src/libscotch/common_integer.c
index 8dd059d..991c06b 100644
--- a/src/libscotch/common_integer.c
+++ b/src/libscotch/common_integer.c
@@ -243,7 +243,7 @@ IntRandContext * const      randptr)
 
   randptr->flagval = 1;                           /* Generator has been initialized */
 
-  randval = (INT) ((((UINT64) randptr->seedval) | 1) * (((UINT64) randptr->procval) + 1)); /* Account for process index */
+  randval = (INT) ((((UINT64) randptr->seedval) | 1) * (2 * ((UINT64) randptr->procval) + 1)); /* Account for process index; keep value odd so that all indices matter */
   intRandSeed2 (&randptr->statdat, randval);      /* Initialize state vector from random seed                           */
 }
 
-- 
2.43.0


From 074cda30054a33a500b026d93767a7130d66418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:27 +0000
Subject: [PATCH 032/153] fix: graphCheck and meshCheck must validate all
 vertex indices before following arcs

---
 src/libscotch/graph_check.c |  7 ++++---
 src/libscotch/mesh_check.c  | 19 ++++++++-----------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/libscotch/graph_check.c b/src/libscotch/graph_check.c
index e631391..6f68478 100644
--- a/src/libscotch/graph_check.c
+++ b/src/libscotch/graph_check.c
@@ -117,14 +117,15 @@ const Graph * const         grafptr)
   edgenbr = 0;
   velosum = (velotax == NULL) ? grafptr->vertnbr : 0;
   edlosum = (edlotax == NULL) ? grafptr->edgenbr : 0;
-  for (vertnum = baseval; vertnum < grafptr->vertnnd; vertnum ++) {
-    Gnum                degrval;
-
+  for (vertnum = baseval; vertnum < grafptr->vertnnd; vertnum ++) { /* Check all indices before using any of them */
     if ((verttax[vertnum] < baseval) ||
         (vendtax[vertnum] < verttax[vertnum])) {
       errorPrint ("graphCheck: invalid vertex arrays");
       return (1);
     }
+  }
+  for (vertnum = baseval; vertnum < grafptr->vertnnd; vertnum ++) {
+    Gnum                degrval;
 
     degrval = vendtax[vertnum] - verttax[vertnum];
     if (degrval > degrmax)
diff --git a/src/libscotch/mesh_check.c b/src/libscotch/mesh_check.c
index a781dce..d85b809 100644
--- a/src/libscotch/mesh_check.c
+++ b/src/libscotch/mesh_check.c
@@ -91,18 +91,20 @@ const Mesh * const          meshptr)
   }
 
   vertnnd = meshptr->velmnbr + meshptr->vnodnbr + meshptr->baseval;
+  for (vertnum = meshptr->baseval; vertnum < vertnnd; vertnum ++) { /* Check all indices before using any of them */
+    if ((meshptr->verttax[vertnum] < meshptr->baseval)          ||
+        (meshptr->vendtax[vertnum] < meshptr->verttax[vertnum])) {
+      errorPrint ("meshCheck: invalid vertex arrays");
+      return     (1);
+    }
+  }
+
   degrmax = 0;
   veisnbr = 0;
   for (vertnum = meshptr->velmbas; vertnum < meshptr->velmnnd; vertnum ++) { /* For all element vertices */
     Gnum                degrval;
     Gnum                edgenum;
 
-    if ((meshptr->verttax[vertnum] < meshptr->baseval)          ||
-        (meshptr->vendtax[vertnum] < meshptr->verttax[vertnum])) {
-      errorPrint ("meshCheck: invalid vertex arrays (1)");
-      return     (1);
-    }
-
     degrval = meshptr->vendtax[vertnum] - meshptr->verttax[vertnum];
     if (degrval > degrmax)
       degrmax = degrval;
@@ -149,11 +151,6 @@ const Mesh * const          meshptr)
   for (vertnum = meshptr->vnodbas; vertnum < meshptr->vnodnnd; vertnum ++) { /* For all node vertices */
     Gnum                edgenum;
 
-    if ((meshptr->verttax[vertnum] < meshptr->baseval)          ||
-        (meshptr->vendtax[vertnum] < meshptr->verttax[vertnum])) {
-      errorPrint ("meshCheck: invalid vertex arrays (2)");
-      return     (1);
-    }
     if ((meshptr->vendtax[vertnum] - meshptr->verttax[vertnum]) > degrmax)
       degrmax = meshptr->vendtax[vertnum] - meshptr->verttax[vertnum];
 
-- 
2.43.0


From ebdc36a481517bdd89275a4aef7d8c75b4485354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 033/153] fix: mesh vertex group flag must not collide with
 other mesh array flags

---
 src/libscotch/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh.h b/src/libscotch/mesh.h
index 6bbc31c..16589a3 100644
--- a/src/libscotch/mesh.h
+++ b/src/libscotch/mesh.h
@@ -63,7 +63,7 @@
 #define MESHFREEVNUM                0x0008        /* Free vnumtab array        */
 #define MESHFREEOTHR                0x0010        /* Free all other arrays     */
 #define MESHFREETABS                0x001F        /* Free all mesh arrays      */
-#define MESHVERTGROUP               0x0010        /* All vertex arrays grouped */
+#define MESHVERTGROUP               0x0020        /* All vertex arrays grouped */
 
 /*+ The Mesh flag type. +*/
 
-- 
2.43.0


From 41e10e3aab5e11c733a6b206474247a90492f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 034/153] fix: mesh files must round-trip: base adjustment,
 labels, isolated elements and loads

---
 src/libscotch/mesh_io.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 2a916a2..6e92236 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -167,6 +167,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   }
   meshptr->verttax -= meshptr->baseval;
   meshptr->vendtax  = meshptr->verttax + 1;       /* Use compact vertex array */
+  if (vlblnbr != 0)                               /* If vertex labels, no base adjust */
+    baseadj = 0;
   meshptr->velotax  = (velonbr != 0) ? (meshptr->velotax - meshptr->baseval) : NULL; /* Store based load array access in velotax */
   meshptr->vnlotax  = meshptr->velotax;
   meshptr->vlbltax  = (vlblnbr != 0) ? (meshptr->vlbltax - meshptr->baseval) : NULL;
@@ -218,8 +220,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->vlbltax[vertnum] = vlblval + vertbas + baseadj; /* Adjust vertex label */
-        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label           */
+        meshptr->vlbltax[vertnum] = vlblval + (vertbas - meshptr->baseval); /* Make labels of both kinds distinct */
+        if (meshptr->vlbltax[vertnum] > vlblmax)  /* Get maximum vertex label */
           vlblmax = meshptr->vlbltax[vertnum];
       }
       if (proptab[2] != 0) {                      /* If must read vertex load */
@@ -241,6 +243,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
+      if ((degrval == 0) && (vertbas == meshptr->velmbas) && (meshptr->velmnbr > 0))
+        meshptr->veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
       degrval += edgenum;
@@ -263,7 +267,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        meshptr->edgetax[edgenum] = edgeval + edgeadj;
+        meshptr->edgetax[edgenum] = edgeval + edgeadj + baseadj;
       }
     }
 
@@ -353,7 +357,7 @@ FILE * restrict const       stream)
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
-    velotabtab[0] = meshptr->vnlotax;
+    velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
   else {
@@ -380,7 +384,7 @@ FILE * restrict const       stream)
       Gnum                edgenum;
 
       if (meshptr->vlbltax != NULL)               /* Write vertex label if necessary */
-        o  = (fprintf (stream, GNUMSTRING "\t", (Gnum) meshptr->vlbltax[vertnum]) == EOF);
+        o  = (fprintf (stream, GNUMSTRING "\t", (Gnum) (meshptr->vlbltax[vertnum] - (vertbas - meshptr->baseval))) == EOF);
       if (propstr[2] != '0')                      /* Write vertex load if necessary */
         o |= (fprintf (stream, GNUMSTRING "\t", (Gnum) ((velotax != NULL) ? velotax[vertnum] : 1)) == EOF);
       o |= (fprintf (stream, GNUMSTRING, (Gnum) (meshptr->vendtax[vertnum] - meshptr->verttax[vertnum])) == EOF); /* Write vertex degree */
@@ -389,7 +393,7 @@ FILE * restrict const       stream)
            (edgenum < meshptr->vendtax[vertnum]) && (o == 0); edgenum ++) {
         o |= (putc ('\t', stream) == EOF);
         o |= (intSave (stream,                    /* Write edge end */
-                       (meshptr->vlbltax != NULL) ? meshptr->vlbltax[meshptr->edgetax[edgenum]] : meshptr->edgetax[edgenum] - edgeadj) != 1);
+                       (meshptr->vlbltax != NULL) ? (meshptr->vlbltax[meshptr->edgetax[edgenum]] - edgeadj) : (meshptr->edgetax[edgenum] - edgeadj)) != 1);
       }
       o |= (putc ('\n', stream) == EOF);
     }
-- 
2.43.0


From 55e559d159e6f0b587b9015d38d4e882ecb6e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 035/153] fix: Harwell-Boeing mesh loading must set element
 load sum and isolated element count

---
 src/libscotch/mesh_io_habo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libscotch/mesh_io_habo.c b/src/libscotch/mesh_io_habo.c
index daa7853..e725a43 100644
--- a/src/libscotch/mesh_io_habo.c
+++ b/src/libscotch/mesh_io_habo.c
@@ -183,6 +183,7 @@ const char * const          dataptr)              /* No use           */
   meshptr->vnodnbr = habvarnbr;
   meshptr->vnodbas = 1;
   meshptr->vnodnnd = meshptr->velmbas;
+  meshptr->velosum = habeltnbr;
   meshptr->vnlosum = habvarnbr;
 
   for (velmnum = meshptr->velmbas; velmnum <= meshptr->velmnnd; velmnum ++) { /* Read ELTPTR as second part of vertex array */
@@ -262,6 +263,8 @@ const char * const          dataptr)              /* No use           */
 
   for (velmnum = meshptr->velmbas, edgenum = habvixnbr + 1; /* Re-scan element part of edge array to build node part of edge array */
        velmnum < meshptr->velmnnd; velmnum ++) {
+    if (meshptr->vendtax[velmnum] == edgenum)     /* If element is isolated */
+      meshptr->veisnbr ++;
     if ((meshptr->vendtax[velmnum] - edgenum) > degrmax)
       degrmax = (meshptr->vendtax[velmnum] - edgenum);
 
-- 
2.43.0


From ff8bc09814d5658b3e6198d3cb4f17a99fd216ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 036/153] fix: geometry loading must set the dimension, size
 the array and match vertex indices

---
 src/libscotch/graph_io_scot.c | 13 ++++++++-----
 src/libscotch/mesh_io_scot.c  | 15 +++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index a0f385d..d960417 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -105,7 +105,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("graphGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (grafptr->vertnbr != coornbr)) {
+  if (grafptr->vertnbr > coornbr) {                /* Supernumerary coordinates are allowed */
     errorPrint ("graphGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
@@ -113,8 +113,10 @@ const char * const          dataptr)              /* No use           */
   if (grafptr->vertnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL)) {
+  geomExit (geomptr);                             /* Discard former geometry, if any */
+  geomptr->dimnnbr = (int) dimnnbr;
+
+  if ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("graphGeomLoadScot: out of memory (1)");
     return     (1);
   }
@@ -180,9 +182,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vertsorttab, grafptr->vertnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++)
-      vertsorttab[vertnum].labl =
+    for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
       vertsorttab[vertnum].num  = vertnum;
+      vertsorttab[vertnum].labl = vertnum + coorsorttab[0].labl; /* Smallest index in geometry file is its base value */
+    }
   }
 
   for (coornum = vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) { /* For all vertices in graph */
diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index 0a42b0a..118e2f1 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -103,7 +103,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("meshGeomLoadScot: bad input (1)");
     return     (1);
   }
-  if ((filesrcptr != NULL) && (meshptr->vnodnbr != coornbr)) {
+  if (meshptr->vnodnbr > coornbr) {                /* Supernumerary coordinates are allowed */
     errorPrint ("meshGeomLoadScot: inconsistent number of vertices");
     return     (1);
   }
@@ -111,8 +111,10 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vnodnbr == 0)
     return (0);
 
-  if ((geomptr->geomtab == NULL) &&               /* Allocate geometry if necessary */
-      ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL)) {
+  geomExit (geomptr);                             /* Discard former geometry, if any */
+  geomptr->dimnnbr = (int) dimnnbr;
+
+  if ((geomptr->geomtab = (double *) memAlloc (meshptr->vnodnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("meshGeomLoadScot: out of memory (1)");
     return     (1);
   }
@@ -166,7 +168,7 @@ const char * const          dataptr)              /* No use           */
   if (meshptr->vlbltax != NULL) {                 /* If graph has vertex labels */
     vnodsortflag = 1;                             /* Assume graph data sorted   */
     for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
-      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->baseval];
+      vnodsorttab[vnodnum].labl = meshptr->vlbltax[vnodnum + meshptr->vnodbas];
       vnodsorttab[vnodnum].num  = vnodnum;
       if ((vnodnum > 0) &&                        /* Check if graph data sorted */
           (vnodsorttab[vnodnum].labl < vnodsorttab[vnodnum - 1].labl))
@@ -176,9 +178,10 @@ const char * const          dataptr)              /* No use           */
       intSort2asc1 (vnodsorttab, meshptr->vnodnbr); /* Sort sort area by ascending labels */
   }
   else {                                          /* Graph does not have vertex labels */
-    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++)
-      vnodsorttab[vnodnum].labl =
+    for (vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) {
+      vnodsorttab[vnodnum].labl = vnodnum + meshptr->vnodbas;
       vnodsorttab[vnodnum].num  = vnodnum;
+    }
   }
 
   for (coornum = vnodnum = 0; vnodnum < meshptr->vnodnbr; vnodnum ++) { /* For all vertices in graph */
-- 
2.43.0


From 23043a1faf124f374b9b63865f69efaf9c5e4907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 037/153] fix: Matrix Market loading must not write past the
 vertex array for base values above 1

---
 src/libscotch/graph_io_mmkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index 2d89f68..b97460e 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -224,7 +224,7 @@ const char * const          dataptr)              /* Fake base value  */
   edgetmp = edgenum - edgetmp;                    /* Compute degree and see if it is maximum degree */
   if (edgetmp > degrmax)
     degrmax = edgetmp;
-  while (vertnum < mrownbr)                       /* Fill gaps with isolated vertices and mark beginning of new one */
+  while (vertnum < (grafptr->vertnnd - 1))        /* Fill gaps with isolated vertices and mark beginning of new one */
     grafptr->verttax[++ vertnum] = edgenum;
   grafptr->verttax[++ vertnum] = edgenum;         /* Mark end of array */
 
-- 
2.43.0


From 965bd6571a33d11a585966397d4e949b607b889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 038/153] fix: Harwell-Boeing format parser must accept skip
 specifications

---
 src/libscotch/graph_io_habo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io_habo.c b/src/libscotch/graph_io_habo.c
index b961f0e..bfe0462 100644
--- a/src/libscotch/graph_io_habo.c
+++ b/src/libscotch/graph_io_habo.c
@@ -404,7 +404,7 @@ const char * const                  dataptr)      /* Format string       */
     for (charptr ++; *charptr != '\0'; charptr ++) {
       if (*charptr == '\0')                       /* Error if end of string */
         return (1);
-      if (! isdigit (*charptr < '0'))
+      if (! isdigit ((int) (unsigned char) *charptr))
         break;
       number = number * 10 + *charptr - '0';
     }
-- 
2.43.0


From b0162f404c268ca01ff93ed50468bfdfac659ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:12 +0000
Subject: [PATCH 039/153] fix: meshLoad must keep access to the load array when
 loads of first kind are not significant

---
 src/libscotch/mesh_io.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 6e92236..4a692f6 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -92,6 +92,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
   Gnum                vlblval;                    /* Value where to read vertex label */
   Gnum                velonbr;                    /* Size of vertex load array        */
   Gnum                veloval;                    /* Value where to read vertex load  */
+  Gnum *              velotax;                    /* Based access to vertex loads     */
   Gnum                vlblnbr;                    /* Size of vertex label array       */
   Gnum                edloval;                    /* Value where to read edge load    */
   Gnum                edgeval;                    /* Value where to read edge end     */
@@ -171,6 +172,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
     baseadj = 0;
   meshptr->velotax  = (velonbr != 0) ? (meshptr->velotax - meshptr->baseval) : NULL; /* Store based load array access in velotax */
   meshptr->vnlotax  = meshptr->velotax;
+  velotax           = meshptr->velotax;           /* Keep access to load array even if one kind of loads is not significant */
   meshptr->vlbltax  = (vlblnbr != 0) ? (meshptr->vlbltax - meshptr->baseval) : NULL;
   meshptr->velosum  = meshptr->velmnbr;           /* Assume element and node vertices not weighted */
   meshptr->vnlosum  = meshptr->vnodnbr;
@@ -233,7 +235,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         }
         if (veloval > velomax)
           velomax = veloval;
-        meshptr->velotax[vertnum] = veloval;
+        velotax[vertnum] = veloval;
         velosum += veloval;
       }
       if (intLoad (stream, &degrval) != 1) {      /* Read vertex degree */
@@ -243,7 +245,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
       if (degrmax < degrval)                      /* Set maximum degree */
         degrmax = degrval;
-      if ((degrval == 0) && (vertbas == meshptr->velmbas) && (meshptr->velmnbr > 0))
+      if ((degrval == 0) && ((meshptr->velmbas <= meshptr->vnodbas) == (i == 0))) /* If element is isolated */
         meshptr->veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
@@ -271,7 +273,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
     }
 
-    if (vertbastab[i] == meshptr->velmbas) {      /* If elements are processed        */
+    if ((meshptr->velmbas <= meshptr->vnodbas) == (i == 0)) { /* If elements are processed */
       if (velomax == 1)                           /* If element loads not significant */
         meshptr->velotax = NULL;
       else
-- 
2.43.0


From 2e238d47600dab1073414f6f4b812698aa54d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 040/153] fix: graphTabLoad read the labels of based graphs out
 of bounds

---
 src/libscotch/library_graph_map_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_map_io.c b/src/libscotch/library_graph_map_io.c
index c982276..6d07453 100644
--- a/src/libscotch/library_graph_map_io.c
+++ b/src/libscotch/library_graph_map_io.c
@@ -150,7 +150,7 @@ FILE * const                  stream)             /*+ Input stream  +*/
     vertsortflag = 1;                             /* Assume graph data sorted */
     vertsortlabl = GNUMMIN;
     for (vertsortnum = 0; vertsortnum < vertnbr; vertsortnum ++) {
-      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum];
+      vertsorttab[vertsortnum].labl = grafptr->vlbltax[vertsortnum + grafptr->baseval];
       vertsorttab[vertsortnum].num  = vertsortnum;
 
       if (vertsorttab[vertsortnum].labl < vertsortlabl) /* Check if graph data sorted */
-- 
2.43.0


From c7e717b43b949dc8825eb3dcec94f50141019789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 041/153] fix: orderLoad trusted the contents of ordering files

---
 src/libscotch/order_io.c | 43 +++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/libscotch/order_io.c b/src/libscotch/order_io.c
index 0a98d2c..6fbbf77 100644
--- a/src/libscotch/order_io.c
+++ b/src/libscotch/order_io.c
@@ -81,7 +81,8 @@ const Gnum * restrict const vlbltax,
 FILE * restrict const       stream)
 {
   Gnum * restrict     permtab;
-  Gnum                vertnum;
+  Gnum                vnodnbr;
+  Gnum                vnodnum;
 
   if (vlbltax != NULL) {
     errorPrint ("orderLoad: vertex labels not yet supported");
@@ -93,32 +94,38 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-  if (intLoad (stream, &ordeptr->vnodnbr) != 1) {
+  if ((intLoad (stream, &vnodnbr) != 1) ||        /* Ordering should match number of nodes */
+      (vnodnbr != ordeptr->vnodnbr)) {
     errorPrint ("orderLoad: bad input (1)");
     memFree    (permtab);
     return     (1);
   }
 
-  if (vlbltax == NULL) {                          /* If ordering does not have label array */
-    for (vertnum = 0; vertnum < ordeptr->vnodnbr; vertnum ++) {
-      Gnum                vertval;
+  memSet (permtab,          ~0, vnodnbr * sizeof (Gnum)); /* Vertices not yet numbered   */
+  memSet (ordeptr->peritab, ~0, vnodnbr * sizeof (Gnum)); /* Indices not yet distributed */
 
-      if ((intLoad (stream, &vertval)          != 1) || /* Read item data */
-          (intLoad (stream, &permtab[vertnum]) != 1)) {
-        errorPrint ("orderLoad: bad input (2)");
-        memFree    (permtab);
-        return     (1);
-      }
-      if (vertval != (vertnum + ordeptr->baseval)) { /* Read item data */
-        errorPrint ("orderLoad: bad input (3)");
-        memFree    (permtab);
-        return     (1);
-      }
+  for (vnodnum = 0; vnodnum < vnodnbr; vnodnum ++) { /* Lines may come in any order */
+    Gnum                vertval;
+    Gnum                permval;
+
+    if ((intLoad (stream, &vertval) != 1) ||      /* Read item data */
+        (intLoad (stream, &permval) != 1)) {
+      errorPrint ("orderLoad: bad input (2)");
+      memFree    (permtab);
+      return     (1);
     }
+    if ((vertval < ordeptr->baseval) || ((vertval - ordeptr->baseval) >= vnodnbr) || /* If invalid or duplicate values */
+        (permval < ordeptr->baseval) || ((permval - ordeptr->baseval) >= vnodnbr) ||
+        (permtab[vertval - ordeptr->baseval] != ~0) ||
+        (ordeptr->peritab[permval - ordeptr->baseval] != ~0)) {
+      errorPrint ("orderLoad: bad input (3)");
+      memFree    (permtab);
+      return     (1);
+    }
+    permtab[vertval - ordeptr->baseval]          = permval;
+    ordeptr->peritab[permval - ordeptr->baseval] = vertval; /* Build inverse permutation */
   }
 
-  orderPeri (permtab, ordeptr->baseval, ordeptr->vnodnbr, ordeptr->peritab, ordeptr->baseval); /* Compute inverse permutation */
-
   memFree (permtab);
   return  (0);
 }
-- 
2.43.0


From 30cd7603404d7925ed71599e2f32d3251e3f1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 042/153] fix: loaded deco 2 architectures lacked their number
 of domains

---
 src/libscotch/arch_deco2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 25c9af4..46a69a0 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -147,6 +147,7 @@ FILE * restrict const       stream)
   archptr->levltab = NULL;
 
   termnbr = archptr->termnbr;
+  archptr->domnnbr =
   domnnbr = 2 * termnbr - 1;
   levlnbr = archptr->levlmax --;                  /* Get levlmax */
   if (memAllocGroup ((void **) (void *)
-- 
2.43.0


From b200ff71a95f0a565285e3c316abc5b05e2748d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 043/153] fix: mesh ordering files bore the labels of elements

---
 src/libscotch/library_mesh_order.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 3752a36..2ee7842 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -144,7 +144,11 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSave (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  const Mesh * const          srcmeshptr = (Mesh *) meshptr;
+
+  return (orderSave (&((LibOrder *) ordeptr)->o,
+          (srcmeshptr->vlbltax == NULL) ? NULL : (srcmeshptr->vlbltax + (srcmeshptr->vnodbas - srcmeshptr->baseval)), /* Orderings only concern nodes */
+          stream));
 }
 
 /*+ This routine saves the mapping data
@@ -161,7 +165,11 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveMap (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  const Mesh * const          srcmeshptr = (Mesh *) meshptr;
+
+  return (orderSaveMap (&((LibOrder *) ordeptr)->o,
+          (srcmeshptr->vlbltax == NULL) ? NULL : (srcmeshptr->vlbltax + (srcmeshptr->vnodbas - srcmeshptr->baseval)), /* Orderings only concern nodes */
+          stream));
 }
 
 /*+ This routine saves to the given stream
@@ -178,7 +186,11 @@ const SCOTCH_Mesh * const     meshptr,            /*+ Mesh to order    +*/
 const SCOTCH_Ordering * const ordeptr,            /*+ Ordering to save +*/
 FILE * const                  stream)             /*+ Output stream    +*/
 {
-  return (orderSaveTree (&((LibOrder *) ordeptr)->o, ((Mesh *) meshptr)->vlbltax, stream));
+  const Mesh * const          srcmeshptr = (Mesh *) meshptr;
+
+  return (orderSaveTree (&((LibOrder *) ordeptr)->o,
+          (srcmeshptr->vlbltax == NULL) ? NULL : (srcmeshptr->vlbltax + (srcmeshptr->vnodbas - srcmeshptr->baseval)), /* Orderings only concern nodes */
+          stream));
 }
 
 /*+ This routine computes an ordering
-- 
2.43.0


From b217a42a2c79cf7263e648a49b682561884517cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 044/153] fix: saved hypercubes of dimension 0 could not be
 loaded

---
 src/libscotch/arch_hcub.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_hcub.c b/src/libscotch/arch_hcub.c
index a0b371d..84e3ea7 100644
--- a/src/libscotch/arch_hcub.c
+++ b/src/libscotch/arch_hcub.c
@@ -102,7 +102,7 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
-      (archptr->dimnnbr < 1)                     ||
+      (archptr->dimnnbr < 0)                     ||
       (archptr->dimnnbr > (Anum) (sizeof (Anum) << 3))) { /* Should have enough bits in ArchHcubDom bitsset field */
     errorPrint ("archHcubArchLoad: bad input");
     return (1);
-- 
2.43.0


From bb1cfaa93de63479185ea2a82698e47f1a8ed55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 045/153] fix: failed loadings of sub-architectures freed unset
 data

---
 src/libscotch/arch_sub.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 40e5ab9..d07ada8 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -88,7 +88,11 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &termnbr) != 1) {
+  subarchptr->archptr = NULL;                     /* Nothing to free yet in case of error */
+  subarchptr->termtab = NULL;
+
+  if ((intLoad (stream, &termnbr) != 1) ||
+      (termnbr < 1)) {
     errorPrint ("archSubArchLoad: bad input (1)");
     return (1);
   }
@@ -113,11 +117,15 @@ FILE * restrict const       stream)
   }
 
   o = archLoad (orgarchptr, stream);
-  if (o == 0)
+  if (o == 0) {
     o = archSubArchBuild (subarchptr, orgarchptr, termnbr, termtab);
+    if (o != 0)
+      archExit (orgarchptr);                      /* Architecture already cleaned-up if it could not be loaded */
+  }
   if (o != 0) {
-    archExit (orgarchptr);
-    memFree  (orgarchptr);
+    memFree (orgarchptr);
+    subarchptr->archptr = NULL;                   /* Nothing to free in sub-architecture */
+    subarchptr->termtab = NULL;
   }
 
   memFree (termtab);
@@ -190,12 +198,14 @@ ArchSub * const             archptr)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if ((archArch (archptr)->flagval & ARCHFREE) != 0) { /* If sub-architecture needs to be freed too */
+  if ((archptr->archptr != NULL) &&
+      ((archArch (archptr)->flagval & ARCHFREE) != 0)) { /* If sub-architecture needs to be freed too */
     archFree (archptr->archptr);
     memFree  (archptr->archptr);
   }
 
-  memFree (archptr->termtab);                     /* Free group leader */
+  if (archptr->termtab != NULL)
+    memFree (archptr->termtab);                   /* Free group leader */
 
   return (0);
 }
@@ -482,6 +492,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
   if (rootptr == NULL) {
     errorPrint ("archSubArchBuild: cannot create sub-architecture (1)");
     memFree    (treetab - 1);
+    memFree    (termtab);
     return (2);
   }
 #ifdef SCOTCH_DEBUG_ARCH2
@@ -494,6 +505,7 @@ const Anum * const          vnumtab)              /* Ordered list of remaining t
   if (archSubArchBuild3 (domntab, termtab, rootptr, 1, 0) != domnnbr) {
     errorPrint ("archSubArchBuild: cannot create sub-architecture (2)");
     memFree    (treetab - 1);
+    memFree    (termtab);
     return (2);
   }
   domntab[0].dfatidx = -1;                        /* Set index of root father as -1 */
-- 
2.43.0


From 43546746d08988c2c8fac6bbb23db2ad1a0549eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 046/153] fix: hmeshOrderCp mis-indexed the node and element
 weights

---
 src/libscotch/hmesh_order_cp.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 634f766..531a7c9 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -206,7 +206,8 @@ const HmeshOrderCpParam * restrict const  paraptr)
 
   coarmeshdat.m.verttax = coarverttax;
   coarmeshdat.m.vendtax = coarverttax + 1;        /* Use compact representation of arrays     */
-  coarmeshdat.m.velotax = finemeshptr->m.velotax; /* Re-use element vertex load array, if any */
+  coarmeshdat.m.velotax = (finemeshptr->m.velotax == NULL) ? NULL /* Re-use element vertex load array, if any */
+                          : (finemeshptr->m.velotax + (finemeshptr->m.velmbas - coarmeshdat.m.velmbas));
   coarmeshdat.m.vnlotax = coarvnlotax;
   coarmeshdat.m.edgetax = coaredgetax;
 
@@ -370,7 +371,12 @@ loop_failed: ;
     memSet (coarmeshdat.m.vnlotax + coarmeshdat.m.vnodbas, 0, coarmeshdat.m.vnodnbr * sizeof (Gnum));
 
     for (finevnodnum = finemeshptr->m.vnodbas; finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) { /* Compute vertex loads for compressed mesh */
-      coarmeshdat.m.vnlotax[finecoartax[finevnodnum]] += finemeshptr->m.vnlotax[finevnodnum];
+      Gnum                coarvnodnum;
+
+      coarvnodnum = finecoartax[finevnodnum];     /* Get index of corresponding coarse node */
+      if (coarvnodnum < 0)                        /* If node is not cluster leader          */
+        coarvnodnum = -2 - coarvnodnum;           /* Get index of cluster leader            */
+      coarvnlotax[coarvnodnum] += finemeshptr->m.vnlotax[finevnodnum];
     }
   }
 
-- 
2.43.0


From 7ddf980cb6dea3d1feb7aab9a8efa2fc2eb91001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:02 +0000
Subject: [PATCH 047/153] fix: hmeshOrderCp did not handle isolated nodes

---
 src/libscotch/hmesh_order_cp.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libscotch/hmesh_order_cp.c b/src/libscotch/hmesh_order_cp.c
index 531a7c9..7f80e32 100644
--- a/src/libscotch/hmesh_order_cp.c
+++ b/src/libscotch/hmesh_order_cp.c
@@ -326,6 +326,26 @@ loop_failed: ;
     return (1);
   }
 #endif /* SCOTCH_DEBUG_ORDER2 */
+  for (finevnodnum = finemeshptr->m.vnodbas, coarvnodnum = -1; /* Merge all isolated nodes, which are not neighbors of any element */
+       finevnodnum < finemeshptr->m.vnodnnd; finevnodnum ++) {
+    if (finemeshptr->m.verttax[finevnodnum] != finemeshptr->m.vendtax[finevnodnum])
+      continue;
+
+    if (coarvnodnum != -1) {                      /* If cluster of isolated nodes already exists */
+      finecoartax[finevnodnum] = -2 - coarvnodnum;
+      coarvsiztax[coarvnodnum] ++;
+      continue;
+    }
+    if (coarvnodnnd >= (coarvnodmax + coarmeshdat.m.vnodbas)) { /* If mesh needs not be compressed */
+      memFree (coarverttax + coarmeshdat.m.baseval);
+      return  (hmeshOrderSt (finemeshptr, fineordeptr, ordenum, cblkptr, paraptr->stratunc));
+    }
+    coarvnodnum = coarvnodnnd ++;                 /* First isolated node is leader of cluster */
+    finecoartax[finevnodnum] = coarvnodnum;
+    coarfinetax[coarvnodnum] = finevnodnum;
+    coarvsiztax[coarvnodnum] = 1;
+  }
+
   coarmeshdat.m.vnodnnd = coarvnodnnd;
   coarmeshdat.m.vnodnbr = coarvnodnnd - coarmeshdat.m.vnodbas;
 
-- 
2.43.0


From 59a6f21a135a7875168e43315e5dcf2862a2e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:41 +0000
Subject: [PATCH 048/153] fix: hmeshMesh must copy all halo nodes when they are
 turned into elements

---
 src/libscotch/hmesh_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_mesh.c b/src/libscotch/hmesh_mesh.c
index 7ba611a..4e21a6b 100644
--- a/src/libscotch/hmesh_mesh.c
+++ b/src/libscotch/hmesh_mesh.c
@@ -127,7 +127,7 @@ Mesh * restrict const         meshptr)            /*+ Mesh to build      +*/
       return     (1);
     }
     memCpy (meshptr->vendtax, hmshptr->m.vendtax + hmshptr->m.baseval, hmshptr->vnohnbr * sizeof (Gnum)); /* Copy non-halo node part */
-    memCpy (meshptr->vendtax + hmshptr->vnohnbr, hmshptr->m.verttax + hmshptr->vnohnnd, hmshptr->m.vnodnbr - hmshptr->vnohnbr * sizeof (Gnum)); /* Create empty fake element part */
+    memCpy (meshptr->vendtax + hmshptr->vnohnbr, hmshptr->m.verttax + hmshptr->vnohnnd, (hmshptr->m.vnodnbr - hmshptr->vnohnbr) * sizeof (Gnum)); /* Create empty fake element part */
     memCpy (meshptr->vendtax + hmshptr->m.vnodnbr, hmshptr->vehdtax + hmshptr->m.velmbas, hmshptr->m.velmnbr * sizeof (Gnum));
 
     meshptr->velmnbr = hmshptr->m.velmnbr + hmshptr->m.vnodnbr - hmshptr->vnohnbr; /* Turn halo node vertices into element vertices */
-- 
2.43.0


From 6a8d5618cd8cf4589a17ecf63c3c82a762de9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:41 +0000
Subject: [PATCH 049/153] fix: hmeshOrderBl must not re-order blocks already
 ordered

---
 src/libscotch/hmesh_order_bl.c | 103 ++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 39 deletions(-)

diff --git a/src/libscotch/hmesh_order_bl.c b/src/libscotch/hmesh_order_bl.c
index 2d80412..1783722 100644
--- a/src/libscotch/hmesh_order_bl.c
+++ b/src/libscotch/hmesh_order_bl.c
@@ -62,6 +62,69 @@
 #include "hmesh_order_bl.h"
 #include "hmesh_order_st.h"
 
+/************************************/
+/*                                  */
+/* This routine splits the existing */
+/* column blocks of a block tree.   */
+/*                                  */
+/************************************/
+
+/* This routine recursively splits the leaves
+** of the given column block tree, without
+** changing the ordering.
+** It returns:
+** - 0   : if the blocks could be split.
+** - !0  : on error.
+*/
+
+static
+int
+hmeshOrderBl2 (
+Order * restrict const      ordeptr,
+OrderCblk * restrict const  cblkptr,              /*+ Column block (tree) to split       +*/
+const Gnum                  cblkmin)              /*+ Minimum number of columns in block +*/
+{
+  Gnum                cblknbr;                    /* Number of old column blocks before splitting */
+  Gnum                cblknum;                    /* Number of current column block               */
+
+  if (cblkptr->cblktab != NULL) {                 /* If block already partitioned */
+    for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
+      if (hmeshOrderBl2 (ordeptr, cblkptr->cblktab + cblknum, cblkmin) != 0)
+        return (1);
+    }
+    return (0);
+  }
+
+  if ((cblkptr->vnodnbr / 2) < cblkmin)           /* If block cannot be split */
+    return (0);
+
+  cblknbr = cblkptr->vnodnbr / cblkmin;           /* Get new number of blocks */
+
+  if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblknbr * sizeof (OrderCblk))) == NULL) {
+    errorPrint ("hmeshOrderBl2: out of memory");
+    return (1);
+  }
+  cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
+  cblkptr->cblknbr = cblknbr;
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_lock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+  ordeptr->treenbr += cblknbr;                    /* These more number of tree nodes    */
+  ordeptr->cblknbr += cblknbr - 1;                /* These more number of column blocks */
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_unlock (&ordeptr->mutedat);
+#endif /* SCOTCH_PTHREAD */
+
+  for (cblknum = 0; cblknum < cblknbr; cblknum ++) {
+    cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
+    cblkptr->cblktab[cblknum].vnodnbr = ((cblkptr->vnodnbr + cblknbr - 1) - cblknum) / cblknbr;
+    cblkptr->cblktab[cblknum].cblknbr = 0;
+    cblkptr->cblktab[cblknum].cblktab = NULL;
+  }
+
+  return (0);
+}
+
 /*****************************/
 /*                           */
 /* This is the main routine. */
@@ -82,9 +145,6 @@ const Gnum                                ordenum, /*+ Zero-based ordering numbe
 OrderCblk * restrict const                cblkptr, /*+ Single column-block        +*/
 const HmeshOrderBlParam * restrict const  paraptr)
 {
-  Gnum                cblknbr;                    /* Number of old column blocks before splitting */
-  Gnum                cblknum;                    /* Number of current column block               */
-
   if (paraptr->cblkmin <= 0) {
     errorPrint ("hmeshOrderBl: invalid minimum block size");
     return (1);
@@ -93,40 +153,5 @@ const HmeshOrderBlParam * restrict const  paraptr)
   if (hmeshOrderSt (meshptr, ordeptr, ordenum, cblkptr, paraptr->strat) != 0) /* Perform ordering strategy */
     return (1);
 
-  if (cblkptr->cblktab == NULL) {                 /* If single column block    */
-    if (cblkptr->vnodnbr < (2 * paraptr->cblkmin)) /* If block cannot be split */
-	return (0);
-
-    cblknbr = cblkptr->vnodnbr / paraptr->cblkmin; /* Get new number of blocks */
-
-    if ((cblkptr->cblktab = (OrderCblk *) memAlloc (cblknbr * sizeof (OrderCblk))) == NULL) {
-      errorPrint ("hgraphOrderBl: out of memory");
-      return (1);
-    }
-    cblkptr->typeval = ORDERCBLKSEQU;             /* Node becomes a sequence of blocks */
-    cblkptr->cblknbr = cblknbr;
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_lock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
-    ordeptr->treenbr += cblknbr;                  /* These more number of tree nodes    */
-    ordeptr->cblknbr += cblknbr - 1;              /* These more number of column blocks */
-#ifdef SCOTCH_PTHREAD
-    pthread_mutex_unlock (&ordeptr->mutedat);
-#endif /* SCOTCH_PTHREAD */
-
-    for (cblknum = 0; cblknum < cblknbr; cblknum ++) {
-      cblkptr->cblktab[cblknum].typeval = ORDERCBLKLEAF;
-      cblkptr->cblktab[cblknum].vnodnbr = ((cblkptr->vnodnbr + cblknbr - 1) - cblknum) / cblknbr;
-      cblkptr->cblktab[cblknum].cblknbr = 0;
-      cblkptr->cblktab[cblknum].cblktab = NULL;
-    }
-  }
-  else {                                          /* Block already partitioned */
-    for (cblknum = 0; cblknum < cblkptr->cblknbr; cblknum ++) {
-      if (hmeshOrderBl (meshptr, ordeptr, ordenum, cblkptr->cblktab + cblknum, paraptr) != 0)
-        return (1);
-    }
-  }
-
-  return (0);
+  return (hmeshOrderBl2 (ordeptr, cblkptr, paraptr->cblkmin)); /* Split resulting blocks */
 }
-- 
2.43.0


From 53e937fc27f3c5e20d2054de5dd33a74dc1499b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 050/153] fix: meshOrderComputeList must not report invalid
 orderings as success

---
 src/libscotch/library_mesh_order.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 2ee7842..e71f3bf 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -285,8 +285,10 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
 
 #ifdef SCOTCH_DEBUG_LIBRARY2
-  if (orderCheck (&libordeptr->o) != 0)
+  if (orderCheck (&libordeptr->o) != 0) {
+    o = 1;
     goto abort;
+  }
 #endif /* SCOTCH_DEBUG_LIBRARY2 */
 
   if (libordeptr->permtab != NULL)                 /* Build direct permutation if wanted */
-- 
2.43.0


From f01c241c628257f2faaca12ae4cc82bfaf84fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 051/153] fix: meshGraphDual must provide element loads along
 with their sum

---
 src/libscotch/mesh_graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index fba9556..361025e 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -263,7 +263,9 @@ const Gnum                  noconbr)              /*+ number of common points to
   }
   grafptr->verttax -= grafptr->baseval;
   grafptr->vendtax  = grafptr->verttax + 1;
-  grafptr->velotax  = NULL;                       /* TODO: not implemented */
+  grafptr->velotax  = (meshptr->velotax != NULL)  /* Keep element part of mesh vertex load array as graph vertex load array */
+                      ? meshptr->velotax + meshptr->velmbas - grafptr->baseval /* Since GRAPHVERTGROUP, no problem on graphFree */
+                      : NULL;
   grafptr->velosum  = meshptr->velosum;
 
   edgemax = 2 * meshptr->edgenbr;                 /* Compute lower bound on number of edges in graph */
-- 
2.43.0


From 7f14a2b5434de1b4534fada11b97539626229bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 052/153] fix: meshGraph debug edge array may not grow and be
 overrun

---
 src/libscotch/mesh_graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index 361025e..21d209f 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -130,7 +130,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
 
   edgemax = 2 * meshptr->edgenbr;                 /* Compute lower bound on number of edges in graph */
 #ifdef SCOTCH_DEBUG_MESH2
-  edgemax = meshptr->degrmax + 1;                 /* Allow testing dynamic reallocation of edge array */
+  edgemax = meshptr->degrmax + 4;                 /* Test dynamic reallocation of edge array; 4 guarantees that 25% > 0 */
 #endif /* SCOTCH_DEBUG_MESH2 */
 
   if ((grafptr->edgetax = memAlloc (edgemax * sizeof (Gnum))) == NULL) {
-- 
2.43.0


From 074632a8e7c1fa5d42a327fa9d05392a2601d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 053/153] fix: meshInduceSepa must use node loads, not element
 loads, for nodes

---
 src/libscotch/mesh_induce_sepa.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index 524f781..c31b569 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -177,13 +177,13 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   hashmsk = hashmsk * 4 + 3;                      /* Compute size of node hash table */
 
   indvertnbr = indvelmnbr + orgsepanbr;           /* Upper bound on number of all vertices */
-  if (orgmeshptr->velotax != NULL) {
+  if (orgmeshptr->vnlotax != NULL) {
     p = memAllocGroup ((void **) (void *)
           &indmeshptr->verttax, (size_t) (indvertnbr * sizeof (Gnum)), /* verttab is not compact */
           &indmeshptr->vendtax, (size_t) (indvertnbr * sizeof (Gnum)),
           &indmeshptr->vnumtax, (size_t) (orgsepanbr * sizeof (Gnum)), /* vnumtab is of size indnodenbr                */
-          &indmeshptr->velotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
-    indmeshptr->velotax -= indmeshptr->vnodbas;
+          &indmeshptr->vnlotax, (size_t) (orgsepanbr * sizeof (Gnum)), NULL); /* Element vertices assumed not weighted */
+    indmeshptr->vnlotax -= indmeshptr->vnodbas;
   }
   else
     p = memAllocGroup ((void **) (void *)
@@ -224,12 +224,12 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
       orgindxtax[orgvnodnum] = indvnodnum ++;     /* One more node vertex created                */
     indmeshptr->verttax[orgindxtax[orgvnodnum]] = indedgenum; /* Set beginning of edge sub-array */
     indmeshptr->vnumtax[orgindxtax[orgvnodnum]] = orgvnodnum - (orgmeshptr->vnodbas - orgmeshptr->baseval);
-    if (indmeshptr->velotax != NULL) {
+    if (indmeshptr->vnlotax != NULL) {
       Gnum                indvnloval;
 
-      indvnloval  = orgmeshptr->velotax[orgvnodnum];
+      indvnloval  = orgmeshptr->vnlotax[orgvnodnum];
       indvnlosum += indvnloval;
-      indmeshptr->velotax[orgindxtax[orgvnodnum]] = indvnloval;
+      indmeshptr->vnlotax[orgindxtax[orgvnodnum]] = indvnloval;
     }
 
     indenodnum  = indedgenum;                     /* Record position of node edge sub-array */
@@ -344,7 +344,7 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   indmeshptr->edgetax -= indmeshptr->baseval;
 
   indmeshptr->velosum = indmeshptr->velmnbr;      /* TODO: account for element weights */
-  indmeshptr->vnlosum = (indmeshptr->velotax == NULL) ? orgsepanbr : indvnlosum;
+  indmeshptr->vnlosum = (indmeshptr->vnlotax == NULL) ? orgsepanbr : indvnlosum;
   indmeshptr->degrmax = orgmeshptr->degrmax;      /* Rough estimate */
 
   if (orgmeshptr->vnumtax != NULL) {              /* If mesh is a submesh */
-- 
2.43.0


From a8eba520d66fa8263eeb1a1159d48672f581520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 054/153] fix: meshCoarsen wrong number of coarse elements when
 nodes come first

---
 src/libscotch/mesh_coarsen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 64a14c4..d72eb22 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -606,7 +606,7 @@ fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax
 
   memFree (finehashtab);
 
-  *coarvelmptr = coarvelmnum - finemeshptr->velmbas;
+  *coarvelmptr = coarvelmnum - finemeshptr->baseval; /* Coarse elements always come first */
   *coarvnodptr = coarvnodnbr;
   *coaredgeptr = coaredgenbr;
 
-- 
2.43.0


From a26941cb6d15ebfa67ad2992089513416c286cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 055/153] fix: meshCoarsen must not write debugging traces

---
 src/libscotch/mesh_coarsen.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index d72eb22..1c05aee 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -428,7 +428,6 @@ Context * restrict const          contptr)
           finecoartax[finevelmnum] = coarvelmnum;
           finemulttax[coarvelmnum].finevelmnum[0] =
           finemulttax[coarvelmnum].finevelmnum[1] = finevelmnum;
-fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax[finevelmnum]); /* TODO REMOVE */
           coarvelmnum ++;                         /* One more single vertex created */
         }
         continue;
-- 
2.43.0


From 1b07438c8bad1fcbf64d9a8eaf5c50e01a1a3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 056/153] fix: meshCoarsen must keep nodes that do not belong
 to any element

---
 src/libscotch/mesh_coarsen.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 1c05aee..502dc4b 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -293,6 +293,17 @@ Context * restrict const      contptr)            /*+ Execution context
     if (coardegrval > coardegrmax)
       coardegrmax = coardegrval;
   }
+  if ((coarvnodnum - coarmeshptr->vnodbas) < finemeshptr->vnodnbr) { /* If some nodes may not have been numbered */
+    Gnum                finevnodnum;
+
+    for (finevnodnum = finemeshptr->vnodbas; finevnodnum < finemeshptr->vnodnnd; finevnodnum ++) {
+      if (finecoartax[finevnodnum] == ~0) {       /* If fine node does not belong to any element     */
+        coarverttax[coarvnodnum] = 0;             /* Keep it as an isolated node in the coarser mesh */
+        coarvelotax[coarvnodnum] = (finemeshptr->vnlotax != NULL) ? finemeshptr->vnlotax[finevnodnum] : 1;
+        finecoartax[finevnodnum] = coarvnodnum ++;
+      }
+    }
+  }
   coarmeshptr->veisnbr = coarveisnbr;
   coarmeshptr->vnodnnd = coarvnodnum;
   coarmeshptr->vnodnbr = coarvnodnum - coarmeshptr->vnodbas;
-- 
2.43.0


From 81a2ef5db161c5517a9adc1d4257d10f64a92362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 057/153] fix: meshCoarsen must stop when elements can no
 longer be merged

---
 src/libscotch/mesh_coarsen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 502dc4b..c075ad6 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -165,6 +165,13 @@ Context * restrict const      contptr)            /*+ Execution context
 
   meshCoarsenFuncTab[coartype] (finemeshptr, finemulttax, finecoartax, &coarvelmnbr, &coarvnodnbr, &coaredgenbr, contptr); /* Call proper matching function */
 
+  if ((coarvelmnbr >= finemeshptr->velmnbr) ||    /* If coarsening ratio not met (or not enough memory for matching) */
+      ((double) coarvelmnbr > ((double) finemeshptr->velmnbr * coarrat))) {
+    memFree (coarverttax);                        /* Free group leader; not based yet */
+    memFree (finecoartax + finemeshptr->baseval);
+    return (1);
+  }
+
 #ifndef DEAD_CODE
   coarvnodnbr = finemeshptr->vnodnbr;             /* TODO : coarvnodnbr estimator is wrong : too tight */
   coaredgenbr = finemeshptr->edgenbr;
-- 
2.43.0


From 8383cb85befb091b23933f47fd24b41cd12dc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 058/153] fix: hmeshOrderHxFill must use node loads, not
 element loads, for nodes

---
 src/libscotch/hmesh_order_hx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 6f133b1..37d5953 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -103,7 +103,7 @@ Gnum * restrict const         pfreptr)
   Gnum * restrict const       elentax = elentab - 1;
   const Gnum * restrict const verttax = meshptr->m.verttax;
   const Gnum * restrict const vendtax = meshptr->m.vendtax;
-  const Gnum * restrict const velotax = meshptr->m.velotax;
+  const Gnum * restrict const vnlotax = meshptr->m.vnlotax;
   const Gnum * restrict const edgetax = meshptr->m.edgetax;
 
   n     = meshptr->m.velmnbr + meshptr->m.vnodnbr;
@@ -127,7 +127,7 @@ Gnum * restrict const         pfreptr)
 
     petax[vertnum]  = edgenum;
     lentax[vertnum] = vendtax[vnodnum] - verttax[vnodnum];
-    nvtax[vertnum]  = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]  = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum], nghbnbr = -1; /* -1 since loop edge will be processed in the main loop */
          enodnum < vendtax[vnodnum]; enodnum ++) {
@@ -165,7 +165,7 @@ Gnum * restrict const         pfreptr)
     petax[vertnum]   = edgenum;
     lentax[vertnum]  = (degrval != 0) ? degrval : (-1 - norig);
     elentax[vertnum] = 0;
-    nvtax[vertnum]   = (velotax != NULL) ? velotax[vnodnum] : 1;
+    nvtax[vertnum]   = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
     for (enodnum = verttax[vnodnum];
          enodnum < vendtax[vnodnum]; enodnum ++)
-- 
2.43.0


From f91f90ad11a7c1f99e5e715af271bb90ac251a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 059/153] fix: hmeshOrderHxFill must set the external degree of
 isolated nodes

---
 src/libscotch/hmesh_order_hx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 37d5953..382edaa 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -153,8 +153,8 @@ Gnum * restrict const         pfreptr)
             break;                                /* Skip to next end vertex        */
         }
       }
-      elentax[vertnum] = nghbnbr;
     }
+    elentax[vertnum] = (nghbnbr > 0) ? nghbnbr : 0; /* Isolated nodes have no neighbors at all */
   }
 
   for ( ; vnodnum < meshptr->m.vnodnnd; vnodnum ++, vertnum ++) { /* Copy halo vertices with base 1 */
-- 
2.43.0


From fbfdb195be9bf6d3a8e4b283c4409cbd554db4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 060/153] fix: hmeshOrderHxFill must flag isolated halo nodes
 as expected by the ordering routines

---
 src/libscotch/hmesh_order_hx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 382edaa..00dc07d 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -107,7 +107,7 @@ Gnum * restrict const         pfreptr)
   const Gnum * restrict const edgetax = meshptr->m.edgetax;
 
   n     = meshptr->m.velmnbr + meshptr->m.vnodnbr;
-  norig = meshptr->m.velmnbr + meshptr->m.vnodnbr; /* Elements always have load 1                        */
+  norig = meshptr->m.velmnbr + meshptr->m.vnlosum; /* Elements always have load 1                        */
   for (hashsiz = 16, degrval = meshptr->m.degrmax * (meshptr->m.degrmax - 1); /* Compute hash table size */
        hashsiz < degrval; hashsiz <<= 1) ;
   hashsiz <<= 1;
-- 
2.43.0


From de11a8c741b27874acd537d700a57899a900f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 061/153] fix: hmeshOrderHd and hmeshOrderHf must index column
 weights like vertices

---
 src/libscotch/hmesh_order_hd.c | 4 ++--
 src/libscotch/hmesh_order_hf.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/hmesh_order_hd.c b/src/libscotch/hmesh_order_hd.c
index 0fc53c8..da7a75d 100644
--- a/src/libscotch/hmesh_order_hd.c
+++ b/src/libscotch/hmesh_order_hd.c
@@ -150,8 +150,8 @@ const HmeshOrderHdParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0,                  meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
diff --git a/src/libscotch/hmesh_order_hf.c b/src/libscotch/hmesh_order_hf.c
index 3212638..4c428f2 100644
--- a/src/libscotch/hmesh_order_hf.c
+++ b/src/libscotch/hmesh_order_hf.c
@@ -153,8 +153,8 @@ const HmeshOrderHfParam * restrict const  paraptr)
 
   if (meshptr->m.vnlotax != NULL) {
     cwgttax -= meshptr->m.baseval;                /* Pre-base array for index computations */
-    memCpy (cwgttax + meshptr->m.vnodbas, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
-    memSet (cwgttax + meshptr->m.velmbas, 0,                                       meshptr->m.velmnbr * sizeof (Gnum));
+    memCpy (cwgttax + meshptr->m.baseval, meshptr->m.vnlotax + meshptr->m.vnodbas, meshptr->m.vnodnbr * sizeof (Gnum));
+    memSet (cwgttax + meshptr->m.baseval + meshptr->m.vnodnbr, 0,                  meshptr->m.velmnbr * sizeof (Gnum));
   }
   else
     cwgttax = NULL;
-- 
2.43.0


From f44ec51ace482df46b5e92130685313cdb3b61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 062/153] fix: hmeshOrderHd and hmeshOrderHf must handle
 hmeshOrderHxFill errors

---
 src/libscotch/hmesh_order_hd.c | 6 +++++-
 src/libscotch/hmesh_order_hf.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/hmesh_order_hd.c b/src/libscotch/hmesh_order_hd.c
index da7a75d..be29ed5 100644
--- a/src/libscotch/hmesh_order_hd.c
+++ b/src/libscotch/hmesh_order_hd.c
@@ -136,7 +136,11 @@ const HmeshOrderHdParam * restrict const  paraptr)
     return (1);
   }
 
-  hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvartab, elentab, &pfree);
+  if (hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvartab, elentab, &pfree) != 0) {
+    errorPrint ("hmeshOrderHd: cannot fill arrays");
+    memFree    (petab);                           /* Free group leader */
+    return (1);
+  }
 
   hallOrderHdR2Halmd (norig, n, meshptr->m.velmnbr, iwlen, petab, pfree,
                       lentab, iwtab, nvartab, elentab, lasttab, &ncmpa,
diff --git a/src/libscotch/hmesh_order_hf.c b/src/libscotch/hmesh_order_hf.c
index 4c428f2..3b80518 100644
--- a/src/libscotch/hmesh_order_hf.c
+++ b/src/libscotch/hmesh_order_hf.c
@@ -140,7 +140,11 @@ const HmeshOrderHfParam * restrict const  paraptr)
     return (1);
   }
 
-  hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvtab, elentab, &pfree);
+  if (hmeshOrderHxFill (meshptr, petab, lentab, iwtab, nvtab, elentab, &pfree) != 0) {
+    errorPrint ("hmeshOrderHf: cannot fill arrays");
+    memFree    (petab);                           /* Free group leader */
+    return (1);
+  }
 
   hallOrderHfR3Hamdf4 (norig, n, meshptr->m.velmnbr, nbbuck, iwlen, petab, pfree,
                        lentab, iwtab, nvtab, elentab, lasttab, &ncmpa,
-- 
2.43.0


From 5a01608481224c871082858a8f9dbe8f1186392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 063/153] fix: hmeshOrderGr must pass the execution context to
 the halo graph

---
 src/libscotch/hmesh_order_gr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libscotch/hmesh_order_gr.c b/src/libscotch/hmesh_order_gr.c
index 04cad98..e57a544 100644
--- a/src/libscotch/hmesh_order_gr.c
+++ b/src/libscotch/hmesh_order_gr.c
@@ -90,6 +90,9 @@ const HmeshOrderGrParam * const paraptr)
     return (1);
   }
 
+  grafdat.levlnum = meshptr->levlnum;
+  grafdat.contptr = meshptr->contptr;             /* Context is needed by graph ordering methods */
+
   if ((o = hgraphOrderSt (&grafdat, ordeptr, ordenum, cblkptr, paraptr->stratptr)) != 0)
     errorPrint ("hmeshOrderGr: cannot order graph");
 
-- 
2.43.0


From 545230403b936fbfabcb0edd7324297a8161a95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:04 +0000
Subject: [PATCH 064/153] fix: hgraphInduceList must not read vertex numbers of
 halo vertices

---
 src/libscotch/hgraph_induce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hgraph_induce.c b/src/libscotch/hgraph_induce.c
index d0a1a16..9119872 100644
--- a/src/libscotch/hgraph_induce.c
+++ b/src/libscotch/hgraph_induce.c
@@ -215,7 +215,7 @@ Gnum * restrict const           indedgetab)       /* Pointer to pre-allocated sp
     const Gnum * restrict const orgvnumtax = orggrafptr->s.vnumtax;
     Gnum * restrict const indvnumtax       = indgrafptr->s.vnumtax;
 
-    for (indvertnum = indgrafptr->s.baseval; indvertnum < indgrafptr->s.vertnnd; indvertnum ++)
+    for (indvertnum = indgrafptr->s.baseval; indvertnum < indgrafptr->vnohnnd; indvertnum ++) /* Only non-halo vertices have a meaningful number */
       indvnumtax[indvertnum] = orgvnumtax[indvnumtax[indvertnum]];
   }
 
-- 
2.43.0


From bd9651b90344e4f9476c9626aa12fab99c71e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:04 +0000
Subject: [PATCH 065/153] fix: mesh coarsening strategies must not accept
 matching types that do not exist

---
 src/libscotch/vmesh_separate_st.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/vmesh_separate_st.c b/src/libscotch/vmesh_separate_st.c
index 8fd3ae3..9653e44 100644
--- a/src/libscotch/vmesh_separate_st.c
+++ b/src/libscotch/vmesh_separate_st.c
@@ -142,7 +142,7 @@ static StratParamTab        vmeshseparatestparatab[] = { /* Mesh separation meth
                               { VMESHSEPASTMETHML,  STRATPARAMCASE,   "type",
                                 (byte *) &vmeshseparatedefaultml.param,
                                 (byte *) &vmeshseparatedefaultml.param.coartype,
-                                (void *) "hsn" },
+                                (void *) "h" },
                               { VMESHSEPASTMETHML,  STRATPARAMINT,    "vnod",
                                 (byte *) &vmeshseparatedefaultml.param,
                                 (byte *) &vmeshseparatedefaultml.param.vnodnbr,
-- 
2.43.0


From 9b0d67d6f00b8b2375af6f86b9c70ec303954f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:59 +0000
Subject: [PATCH 066/153] fix: minimum degree and fill methods must eliminate
 all nodes of meshes

---
 src/libscotch/hall_order_hd.c | 1 +
 src/libscotch/hall_order_hf.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libscotch/hall_order_hd.c b/src/libscotch/hall_order_hd.c
index 232f29b..b226559 100644
--- a/src/libscotch/hall_order_hd.c
+++ b/src/libscotch/hall_order_hd.c
@@ -437,6 +437,7 @@ Gnum * restrict     w)                            /* Flag array
       else {                                      /* i \in Ve or V0 */
         if (elen[i] < 0) {                        /* If i \in Ve    */
           nel    += nv[i];
+          totel  += nv[i];                        /* Elements are accounted for as already eliminated */
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
diff --git a/src/libscotch/hall_order_hf.c b/src/libscotch/hall_order_hf.c
index 8ec12b9..1f71c3a 100644
--- a/src/libscotch/hall_order_hf.c
+++ b/src/libscotch/hall_order_hf.c
@@ -780,6 +780,7 @@ Gnum * restrict     head /* [0:nbbuck+1] */)      /* Linked list structure
       else {                                      /* Non-halo vertex or element */
         if (elen[i] < 0) {                        /* If i \in Ve                */
           nel    += nv[i];
+          totel  += nv[i];                        /* Elements are accounted for as already eliminated */
           elen[i] = - nel;
           if (n == norig)
             degree[i] = len[i];
-- 
2.43.0


From 699ede3b963b6bb8e10d37c55eda75a7bfb796bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:59 +0000
Subject: [PATCH 067/153] fix: hmeshOrderHxFill must compute weighted external
 degrees

---
 src/libscotch/hmesh_order_hx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 00dc07d..772cf39 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -123,13 +123,13 @@ Gnum * restrict const         pfreptr)
   for (vnodnum = meshptr->m.vnodbas, vertnum = edgenum = 1; /* Copy non-halo node data with base 1 */
        vnodnum < meshptr->vnohnnd; vertnum ++, vnodnum ++) {
     Gnum                      enodnum;
-    Gnum                      nghbnbr;
+    Gnum                      nghbnbr;            /* Sum of the loads of neighbor nodes */
 
     petax[vertnum]  = edgenum;
     lentax[vertnum] = vendtax[vnodnum] - verttax[vnodnum];
     nvtax[vertnum]  = (vnlotax != NULL) ? vnlotax[vnodnum] : 1;
 
-    for (enodnum = verttax[vnodnum], nghbnbr = -1; /* -1 since loop edge will be processed in the main loop */
+    for (enodnum = verttax[vnodnum], nghbnbr = - nvtax[vertnum]; /* Since loop edge will be processed in the main loop */
          enodnum < vendtax[vnodnum]; enodnum ++) {
       Gnum                      velmnum;
       Gnum                      eelmnum;
@@ -147,7 +147,7 @@ Gnum * restrict const         pfreptr)
           if (hashtab[hnodend].vertnum != vnodnum) {
             hashtab[hnodend].vertnum = vnodnum;
             hashtab[hnodend].vertend = vnodend;
-            nghbnbr ++;
+            nghbnbr += (vnlotax != NULL) ? vnlotax[vnodend] : 1;
           }
           if (hashtab[hnodend].vertend == vnodend) /* If end vertex already present */
             break;                                /* Skip to next end vertex        */
-- 
2.43.0


From 81a6accb1d32a0127cd647984923b7ededb4207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 068/153] fix: hmeshOrderHxFill must not give isolated elements
 the list of others

---
 src/libscotch/hmesh_order_hx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/hmesh_order_hx.c b/src/libscotch/hmesh_order_hx.c
index 772cf39..dfb7a7d 100644
--- a/src/libscotch/hmesh_order_hx.c
+++ b/src/libscotch/hmesh_order_hx.c
@@ -176,8 +176,9 @@ Gnum * restrict const         pfreptr)
   for (velmnum = meshptr->m.velmbas; velmnum < meshptr->m.velmnnd; velmnum ++, vertnum ++) {
     Gnum                      eelmnum;
 
-    petax[vertnum]   = edgenum;
-    lentax[vertnum]  = meshptr->m.vendtax[velmnum] - meshptr->m.verttax[velmnum];
+    degrval = vendtax[velmnum] - verttax[velmnum];
+    petax[vertnum]   = (degrval != 0) ? edgenum : 0; /* Isolated elements have no adjacency list, to be skipped on compression */
+    lentax[vertnum]  = degrval;
     elentax[vertnum] = - (n + 1);
     nvtax[vertnum]   = 1;                         /* Elements always have weight 1 */
 
-- 
2.43.0


From e0b8d9573368f4248b6cf59795fee899164c0d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:07 +0000
Subject: [PATCH 069/153] fix: graphPartOvl: initialize partition before
 applying strategy

---
 src/libscotch/library_graph_part_ovl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index 5bc5b89..9e2ee2d 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -115,6 +115,8 @@ SCOTCH_Num * const          parttab)              /*+ Partition array       +*/
     goto abort;
   }
 
+  wgraphZero (&grafdat);                          /* Strategies start from a valid partition */
+
   o = wgraphPartSt (&grafdat, partstraptr);
 
   wgraphExit (&grafdat);
-- 
2.43.0


From f9c80e7b1cc9eef9964169b6662e5ababb0cc177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:07 +0000
Subject: [PATCH 070/153] fix: wgraphPartEs: only consider existing domains

---
 src/libscotch/wgraph_part_es.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 0986624..88279b0 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -105,13 +105,16 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
 
   if (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) { /* Map active subgraph */
     errorPrint ("wgraphPartEs: cannot partition active graph");
+    kgraphExit (&actgrafdat);
+    memFree    (npfltab - 1);
     return (1);
   }
 
   comploadtab = grafptr->compload;
   compsizetab = grafptr->compsize;
 
-  for (partnum = 0; partnum < partnbr; partnum ++)
+  memSet (comploadtab, 0, partnbr * sizeof (Gnum)); /* Not all parts may be used */
+  for (partnum = 0; partnum < actgrafdat.m.domnnbr; partnum ++)
     comploadtab[archDomNum (&archdat, &actgrafdat.m.domntab[partnum])] = actgrafdat.comploadavg[partnum] + actgrafdat.comploaddlt[partnum];
 
   memSet (compsizetab, 0, partnbr * sizeof (Gnum));
-- 
2.43.0


From ff4b782f261322840bf2d7fc2d293bde493c2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:07 +0000
Subject: [PATCH 071/153] fix: wgraphPartRb: handle empty subparts

---
 src/libscotch/wgraph_part_rb.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 42e886f..7a51045 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -281,7 +281,6 @@ const WgraphPartRbSplit * const spltptr)
 {
   Vgraph              actgrafdat;
   WgraphPartRbSplit   spltdat;
-  int                 partval;
   int                 o;
 
   WgraphPartRbData * restrict const dataptr = spltptr->dataptr;
@@ -352,15 +351,13 @@ const WgraphPartRbSplit * const spltptr)
   spltdat.grafptr = &actgrafdat.s;
   spltdat.revaptr = &o;
 
-  if ((partval = 1, actgrafdat.compsize[0] <= 0) || /* If a subpart is empty, run on other part (without considering separator vertices) */
-      (partval = 0, actgrafdat.compsize[1] <= 0)) {
-    spltdat.splttab[1].vertnbr = actgrafdat.s.vertnbr; /* TRICK: use fake part 1 for calling */
-    spltdat.splttab[1].domnnum = spltdat.splttab[partval].domnnum;
-    spltdat.splttab[1].domnsiz = spltdat.splttab[partval].domnsiz;
+  if ((actgrafdat.compsize[0] <= 0) ||            /* If a subpart is empty, run on biggest domain half (without considering separator vertices) */
+      (actgrafdat.compsize[1] <= 0)) {
+    spltdat.splttab[1].vertnbr = actgrafdat.s.vertnbr; /* TRICK: use fake part 1 for calling; its domain always has at least two parts */
     spltdat.frontab = NULL;                       /* No separator vertices, even if they were some */
     spltdat.fronnbr = 0;
     spltdat.parttax = NULL;
-    wgraphPartRb2 (contptr, partval, &spltdat);
+    wgraphPartRb2 (contptr, 1, &spltdat);
     vgraphExit    (&actgrafdat);
     if (o != 0)
       goto abort;
-- 
2.43.0


From 3b8fb329c6b1d81424cd43761af00101298c9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:41 +0000
Subject: [PATCH 072/153] fix: vgraphSeparateEs must account for part weights
 in imbalance

---
 src/libscotch/vgraph_separate_es.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/vgraph_separate_es.c b/src/libscotch/vgraph_separate_es.c
index f5905a9..67373a7 100644
--- a/src/libscotch/vgraph_separate_es.c
+++ b/src/libscotch/vgraph_separate_es.c
@@ -757,7 +757,7 @@ const VgraphSeparateEsParam * const paraptr)      /*+ Method parameters +*/
     }
   }
 
-  grafptr->comploaddlt = grafptr->compload[0] - grafptr->compload[1];
+  grafptr->comploaddlt = grafptr->compload[0] * grafptr->dwgttab[1] - grafptr->compload[1] * grafptr->dwgttab[0];
   grafptr->compload[2] = grafptr->s.velosum - grafptr->compload[0] - grafptr->compload[1];
   grafptr->fronnbr     = grafptr->s.vertnbr - grafptr->compsize[0] - grafptr->compsize[1];
 
-- 
2.43.0


From 2c715b62846eb7782dddb8398f7f81375cce999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:09 +0000
Subject: [PATCH 073/153] fix: bgraphBipartSt band method lacks a default
 original-graph strategy

---
 src/libscotch/bgraph_bipart_st.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph_bipart_st.c b/src/libscotch/bgraph_bipart_st.c
index 2d332a9..5dda1fd 100644
--- a/src/libscotch/bgraph_bipart_st.c
+++ b/src/libscotch/bgraph_bipart_st.c
@@ -92,7 +92,7 @@ static Bgraph               bgraphdummy;      /*+ Dummy active graph for offset
 static union {
   BgraphBipartBdParam       param;
   StratNodeMethodData       padding;
-} bgraphbipartstdefaultbd = { { 3, &stratdummy } };
+} bgraphbipartstdefaultbd = { { 3, &stratdummy, &stratdummy } };
 
 static union {
   BgraphBipartDfParam       param;
-- 
2.43.0


From 5eb7d616e0bfec7769689aaa2385c2a0bfd8dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:09 +0000
Subject: [PATCH 074/153] fix: stratTestSave must parenthesize operands of
 lower precedence

---
 src/libscotch/parser.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index f7df8cc..4a55c5c 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -549,7 +549,6 @@ StratTest * const           testptr)
 */
 
 static char                 strattestsaveop[STRATTESTNBR] = "|&!=><+-*%##";
-static char *               strattestsavepa[2][2] = { { "(", ")" }, { "", "" } };
 
 int
 stratTestSave (
@@ -583,17 +582,12 @@ FILE * const                stream)
     case STRATTESTSUB :                           /* Subtraction operator    */
     case STRATTESTMUL :                           /* Multiplication operator */
     case STRATTESTMOD :                           /* Modulus operator        */
-      i = (testptr->data.testtab[0]->testval < testptr->testval) ? 1 : 0;
-      fprintf (stream, "%s", strattestsavepa[i][0]);
-      o = stratTestSave (testptr->data.testtab[0], stream);
-      fprintf (stream, "%s", strattestsavepa[i][1]);
-      if (o == 0) {
-        fprintf (stream, "%c", strattestsaveop[testptr->testval]);
-        i = (testptr->data.testtab[1]->testval < testptr->testval) ? 1 : 0;
-        fprintf (stream, "%s", strattestsavepa[i][0]);
-        stratTestSave (testptr->data.testtab[1], stream);
-        fprintf (stream, "%s", strattestsavepa[i][1]);
-      }
+      if ((fprintf (stream, "(") == EOF) ||       /* Always use parentheses so as to preserve structure */
+          (stratTestSave (testptr->data.testtab[0], stream) != 0) ||
+          (fprintf (stream, ")%c(", strattestsaveop[testptr->testval]) == EOF) ||
+          (stratTestSave (testptr->data.testtab[1], stream) != 0) ||
+          (fprintf (stream, ")") == EOF))
+        o = 1;
       break;
     case STRATTESTVAL :                           /* Constant value */
       switch (testptr->nodeval) {
-- 
2.43.0


From 6a0ce659a8be43dcb58d9a3cb35b00d08716a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:09 +0000
Subject: [PATCH 075/153] fix: stratSave must not lose precision of
 floating-point values

---
 src/libscotch/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index 4a55c5c..045043b 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -248,7 +248,7 @@ FILE * const                stream)
               o = (fprintf (stream, INTSTRING, *((INT *) paraofft)) == EOF);
               break;
             case STRATPARAMDOUBLE :               /* Double value */
-              o = (fprintf (stream, "%g", *((double *) paraofft)) == EOF);
+              o = (fprintf (stream, "%.15g", *((double *) paraofft)) == EOF);
               break;
             case STRATPARAMSTRAT :                /* Strategy                      */
               o = stratSave (*((Strat **) paraofft), stream); /* Perform recursion */
@@ -592,7 +592,7 @@ FILE * const                stream)
     case STRATTESTVAL :                           /* Constant value */
       switch (testptr->nodeval) {
         case STRATPARAMDOUBLE :
-          o = (fprintf (stream, "%lf", testptr->data.val.valdbl) == EOF);
+          o = (fprintf (stream, "%.15e", testptr->data.val.valdbl) == EOF); /* Always written as a floating-point number */
           break;
         case STRATPARAMINT :
           o = (fprintf (stream, INTSTRING, (INT) testptr->data.val.valint) == EOF);
-- 
2.43.0


From 2d94eb91ec59248d97c1a65f363ee90a39bd1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:28 +0000
Subject: [PATCH 076/153] fix: condition variable mdeg is an integer

---
 src/libscotch/hdgraph_order_st.c | 2 +-
 src/libscotch/hgraph_order_st.c  | 2 +-
 src/libscotch/hmesh_order_st.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_st.c b/src/libscotch/hdgraph_order_st.c
index e481b28..eebd06b 100644
--- a/src/libscotch/hdgraph_order_st.c
+++ b/src/libscotch/hdgraph_order_st.c
@@ -128,7 +128,7 @@ static StratParamTab        hdgraphorderstcondtab[] = { /* Graph condition param
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.veloglbsum,
                                 NULL },
-                              { STRATNODECOND,         STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,         STRATPARAMINT,    "mdeg",
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.degrglbmax,
                                 NULL },
diff --git a/src/libscotch/hgraph_order_st.c b/src/libscotch/hgraph_order_st.c
index 146d3c9..1692ca6 100644
--- a/src/libscotch/hgraph_order_st.c
+++ b/src/libscotch/hgraph_order_st.c
@@ -228,7 +228,7 @@ static StratParamTab        hgraphorderstcondtab[] = { /* Graph condition parame
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.vnlosum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.s.degrmax,
                                 NULL },
diff --git a/src/libscotch/hmesh_order_st.c b/src/libscotch/hmesh_order_st.c
index b7dd2db..906491c 100644
--- a/src/libscotch/hmesh_order_st.c
+++ b/src/libscotch/hmesh_order_st.c
@@ -204,7 +204,7 @@ static StratParamTab        hmeshorderstcondtab[] = { /* Mesh condition paramete
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.vnhlsum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.m.degrmax,
                                 NULL },
-- 
2.43.0


From 94d7da47a3f5d85fe454546bc0ca8a462ecfac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 077/153] fix: parser location must not account for blanks
 twice

---
 src/libscotch/parser.c    | 2 +-
 src/libscotch/parser_ll.l | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index 045043b..bc10d09 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -640,7 +640,7 @@ const char * const          textptr)
   locaptr->tebeptr = locaptr->teenptr;
 
   for (textidx = 0; textptr[textidx] != '\0'; textidx ++) {
-    if (*textptr == '\n') {
+    if (textptr[textidx] == '\n') {
       locaptr->coennum = 0;
       locaptr->liennum ++;
     }
diff --git a/src/libscotch/parser_ll.l b/src/libscotch/parser_ll.l
index d655669..bc36027 100644
--- a/src/libscotch/parser_ll.l
+++ b/src/libscotch/parser_ll.l
@@ -160,9 +160,7 @@ STRING                      \"[^\"]*\"
                               return (PARAMNAME);
                             }
 
-[ \t\n]*                    {
-                              parserLocationUpdate (yylloc, yytext); /* Update position without returning */
-                            }
+[ \t\n]*                    ;                         /* Position already updated by YY_USER_ACTION */
 .                           return (yytext[0]);
 
 %%
-- 
2.43.0


From 3c7113407f0cbc1c7110262b37f6fb355bb7abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 078/153] fix: strategy parser must refuse missing parameter
 values

---
 src/libscotch/parser_yy.y | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index a9b236d..a22eb5c 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -471,6 +471,12 @@ PARAMVAL      : VALCASE
               }
               |
               {
+                if ((penvptr->paraptr->typeval & ~STRATPARAMDEPRECATED) != STRATPARAMSTRAT) { /* If value is missing */
+                  errorPrint ("stratParserParse: missing value for parameter \"%s\" of method \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr);
+                  YYABORT;
+                }
+
                 ($<SAVE>$).strat = penvptr->straptr;
                 ($<SAVE>$).param = penvptr->paraptr;
                 penvptr->straptr = NULL;
-- 
2.43.0


From 4c60a16e242c096058f4ec0d0e1b15b78d98b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 079/153] fix: strategy parser error report must not
 dereference unset method

---
 src/libscotch/parser_yy.y | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index a22eb5c..6c9f550 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -501,9 +501,10 @@ PARAMVAL      : VALCASE
               }
               | error
               {
-                errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
-                            penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
-                            (@1).libenum, (@1).cobenum, (@1).tebeptr);
+                if ((penvptr->paraptr != NULL) && (penvptr->straptr != NULL)) /* If error not within some sub-strategy */
+                  errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
+                              (@1).libenum, (@1).cobenum, (@1).tebeptr);
                 YYABORT;
               }
               ;
-- 
2.43.0


From 237a8bb1a112bec9e3b125ad992ad6122b866ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 080/153] fix: archDecoArchBuild must handle edge loads of
 non-compact graphs

---
 src/libscotch/arch_build.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/arch_build.c b/src/libscotch/arch_build.c
index a369de8..73f7660 100644
--- a/src/libscotch/arch_build.c
+++ b/src/libscotch/arch_build.c
@@ -162,7 +162,18 @@ Context * const             contptr)              /*+ Execution context
   if (termdomnbr == 0)                            /* If nothing to do */
     return (0);
 
-  invedlosiz = (tgtedlotax != NULL) ? tgtgrafptr->edgenbr : 0;
+  invedlosiz = 0;
+  if (tgtedlotax != NULL) {                       /* If architecture graph has edge loads */
+    invedlosiz = tgtgrafptr->edgenbr;             /* Size for compact or induced graphs   */
+    if ((tgtvendtax - tgtverttax) != 1) {         /* If graph is not compact              */
+      Gnum                vertnum;
+
+      for (vertnum = tgtgrafptr->baseval; vertnum < tgtgrafptr->vertnnd; vertnum ++) { /* Find end of edge array */
+        if ((tgtvendtax[vertnum] - tgtgrafptr->baseval) > invedlosiz)
+          invedlosiz = tgtvendtax[vertnum] - tgtgrafptr->baseval;
+      }
+    }
+  }
   if ((memAllocGroup ((void **) (void *)
                       &jobtab,     (size_t) (termdomnbr * sizeof (ArchDecoBuildJob)),
                       &actfrontab, (size_t) (termdomnbr * sizeof (Gnum)),
@@ -202,6 +213,7 @@ Context * const             contptr)              /*+ Execution context
 
   if (tgtedlotax != NULL) {                       /* If architecture graph has edge loads                     */
     invedlotax -= tgtgrafptr->baseval;            /* Base inversed edge load array                            */
+    jobtab[0].grafdat.edlosum =                   /* Record edge load sum of inversed loads                   */
     graphIelo (&jobtab[0].grafdat, jobtab[0].grafdat.edlotax, invedlotax); /* Compute inverse of edge loads   */
     jobtab[0].grafdat.edlotax = invedlotax;       /* Replace potentially induced edge array with inversed one */
   }                                               /* Edge array will be freed along with jobtab group leader  */
-- 
2.43.0


From b794703f1308164e4600dc297d07481a58900475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 081/153] fix: contextOptionSetNum must switch on option number

---
 src/libscotch/library_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_context.c b/src/libscotch/library_context.c
index 09b6c79..9939c61 100644
--- a/src/libscotch/library_context.c
+++ b/src/libscotch/library_context.c
@@ -303,7 +303,7 @@ const SCOTCH_Num            optival)
   optitmp = optival;                              /* Set working value */
   o = 0;                                          /* Assume no error   */
 
-  switch (optival) {
+  switch (optinum) {
     case CONTEXTOPTIONNUMRANDOMFIXEDSEED :
       if (optitmp != 0)
         optitmp = 1;                              /* Only two values available */
-- 
2.43.0


From d83d3a6f98a85cb76def755988afb219314d5384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 082/153] fix: kgraphMapFm: do not let results depend on
 whether edge array moves

---
 src/libscotch/kgraph_map_fm.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 2a8c813..c0c15ca 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -517,6 +517,7 @@ KgraphMapFmTabl * restrict const    tablptr)
   KgraphMapFmEdge * restrict    edxxtmp;
   KgraphMapFmEdge * restrict    edxxtab;
   Gnum                          edxxsiz;
+  Gnum                          edxxidx;
 
   edxxtab = *edxxtabptr;
   edxxsiz = *edxxsizptr;
@@ -528,19 +529,15 @@ KgraphMapFmTabl * restrict const    tablptr)
     errorPrint ("kgraphMapFmEdgeResize: out of memory");
     return     (1);
   }
-  if (edxxtmp != edxxtab) {                     /* If array has been reallocated, re-link all edges */
-    Gnum                edxxidx;
-
-    edxxtab = *edxxtabptr = edxxtmp;            /* Point to new array location */
-
-    kgraphMapFmTablFree (tablptr);              /* Free all edges in gain structure */
-
-    for (edxxidx = 0; edxxidx < edxxnbr; edxxidx ++) {
-      if ((vexxtab[edxxtab[edxxidx].vexxidx].lockptr == NULL) && /* Vertex is not locked         */
-          (edxxtab[edxxidx].vexxidx != vexxidx) && /* Edge of current vertex will be added later */
-          (edxxtab[edxxidx].edxxidx != -2))     /* Skip deprecated extended edges                */
-        kgraphMapFmTablAdd (tablptr, &edxxtab[edxxidx]);
-    }
+  *edxxtabptr = edxxtmp;                          /* Point to (possibly new) array location */
+  edxxtab     = edxxtmp;
+
+  kgraphMapFmTablFree (tablptr);                  /* Free all edges in gain structure                                      */
+  for (edxxidx = 0; edxxidx < edxxnbr; edxxidx ++) { /* Re-link all edges, so that order does not depend on move of array */
+    if ((vexxtab[edxxtab[edxxidx].vexxidx].lockptr == NULL) && /* Vertex is not locked         */
+        (edxxtab[edxxidx].vexxidx != vexxidx) &&  /* Edge of current vertex will be added later */
+        (edxxtab[edxxidx].edxxidx != -2))         /* Skip deprecated extended edges             */
+      kgraphMapFmTablAdd (tablptr, &edxxtab[edxxidx]);
   }
 
   return (0);
-- 
2.43.0


From d274f8cf61117e6a6c11d6271090aa2546dfed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 083/153] fix: graphCoarsen3: remove data race on return value

---
 src/libscotch/graph_coarsen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index 2852547..78fe00c 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -192,7 +192,8 @@ GraphCoarsenData * restrict const coarptr)
     coarvertnbr = coarptr->coarvertnbr;           /* Get number of vertices actually created    */
     if (coarvertnbr >= coarptr->coarvertmax) {    /* If coarsened graph is too large, stop here */
 #ifdef SCOTCH_PTHREAD
-      if (thrdnum == 0)                           /* Thread 0 sets the return value */
+      threadBarrier (descptr);                    /* All threads must have read return value before it is changed */
+      if (thrdnum == 0)                           /* Thread 0 sets the return value                               */
 #endif /* SCOTCH_PTHREAD */
 	coarptr->retuval = 1;
       return;
-- 
2.43.0


From 0598203c7d5705f7df153018be1652f19a2a8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 084/153] fix: METIS_PartGraphRecursive (v5): do not
 dereference a null ubvec

---
 src/libscotchmetis/metis_graph_part.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index 3559d5a..c800bfa 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -583,16 +583,18 @@ SCOTCH_Num * const          objval,
 SCOTCH_Num * const          part)
 {
   SCOTCH_Num          baseval;
+  double              kbalval;
 
+  kbalval = 0.01;
   baseval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_NUMBERING] : 0;
 
   return ((vsize == NULL)
           ? _SCOTCH_METIS_PartGraph (nvtxs, ncon, xadj, adjncy, vwgt, adjwgt,
                                      &baseval, nparts, tpwgts, options, objval, part,
-                                     SCOTCH_STRATRECURSIVE, ubvec)
+                                     SCOTCH_STRATRECURSIVE, (ubvec != NULL) ? ubvec : &kbalval)
           : _SCOTCH_METIS_PartGraph_Volume (nvtxs, ncon, xadj, adjncy, vwgt, vsize,
                                             &baseval, nparts, tpwgts, options, objval, part,
-                                            SCOTCH_STRATRECURSIVE, ubvec));
+                                            SCOTCH_STRATRECURSIVE, (ubvec != NULL) ? ubvec : &kbalval));
 }
 
 /*******************/
-- 
2.43.0


From c106b754a0b192d6273b084e249d4ac24585aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 085/153] fix: METIS_PartGraph* (v5): return the communication
 volume when it is the objective

---
 src/libscotchmetis/metis_graph_part.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index c800bfa..30eeaab 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -553,7 +553,8 @@ SCOTCH_Num * const          part)
   kbalval = 0.01;
   baseval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_NUMBERING] : 0;
 
-  return ((vsize == NULL)
+  return (((vsize == NULL) &&
+           ((options == NULL) || (options == xadj) || (options[METIS_OPTION_OBJTYPE] != METIS_OBJTYPE_VOL)))
           ? _SCOTCH_METIS_PartGraph (nvtxs, ncon, xadj, adjncy, vwgt, adjwgt,
                                      &baseval, nparts, tpwgts, options, objval, part,
                                      SCOTCH_STRATDEFAULT, (ubvec != NULL) ? ubvec : &kbalval)
@@ -588,7 +589,8 @@ SCOTCH_Num * const          part)
   kbalval = 0.01;
   baseval = ((options != NULL) && (options != xadj)) ? options[METIS_OPTION_NUMBERING] : 0;
 
-  return ((vsize == NULL)
+  return (((vsize == NULL) &&
+           ((options == NULL) || (options == xadj) || (options[METIS_OPTION_OBJTYPE] != METIS_OBJTYPE_VOL)))
           ? _SCOTCH_METIS_PartGraph (nvtxs, ncon, xadj, adjncy, vwgt, adjwgt,
                                      &baseval, nparts, tpwgts, options, objval, part,
                                      SCOTCH_STRATRECURSIVE, (ubvec != NULL) ? ubvec : &kbalval)
-- 
2.43.0


From 1b08661bd030139126dc709746811493af5200d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 086/153] fix: METIS: turn part weights into integers that are
 proportionate to them

---
 src/libscotchmetis/metis_graph_part.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libscotchmetis/metis_graph_part.c b/src/libscotchmetis/metis_graph_part.c
index 30eeaab..1181315 100644
--- a/src/libscotchmetis/metis_graph_part.c
+++ b/src/libscotchmetis/metis_graph_part.c
@@ -203,6 +203,7 @@ SCOTCH_Num * const          cvolptr)
 */
 
 #define EPSILON 1e-6
+#define DOUBADJMAX 10000.0                        /* Renormalization factor when values have no smaller one */
 
 void
 _SCOTCH_METIS_doubleToInt (
@@ -213,17 +214,16 @@ SCOTCH_Num * const          intetab)
   double              doubadj;
   SCOTCH_Num          i;
 
-  for (i = 0, doubadj = 1.0; i < valunbr; i ++) {
-    double              doubval;
-    double              doubtmp;
+  for (doubadj = 1.0; doubadj < DOUBADJMAX; doubadj += 1.0) { /* Search for smallest renormalization factor */
+    for (i = 0; i < valunbr; i ++) {
+      double              doubval;
 
-    doubval  = doubtab[i];
-    doubval *= doubadj;                         /* See if renormalization factor works        */
-    doubtmp  = doubval - floor (doubval + EPSILON); /* Determine its possible fractional part */
-    if (fabs (doubtmp) >= EPSILON) {            /* If a residual fractional part exists       */
-      doubtmp = doubadj / doubtmp;              /* Incorporate it in renormalization factor   */
-      doubadj = (doubadj * doubtmp) / (double) intGcd ((int) round (doubadj), (int) round (doubtmp));
+      doubval = doubtab[i] * doubadj;             /* See if renormalization factor works             */
+      if (fabs (doubval - round (doubval)) >= EPSILON * doubadj) /* If a residual fractional part exists */
+        break;
     }
+    if (i >= valunbr)                             /* If all values are turned into integers, keep factor */
+      break;
   }
   for (i = 0; i < valunbr; i ++)
     intetab[i] = (SCOTCH_Num) round (doubtab[i] * doubadj);
-- 
2.43.0


From 213e9fd617864ce7ab0fe0e9226bd2ee68443755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 087/153] fix: METIS_MeshToDual: refuse the node index just
 past the last one

---
 src/libscotchmetis/metis_graph_dual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_dual.c b/src/libscotchmetis/metis_graph_dual.c
index decc768..5662761 100644
--- a/src/libscotchmetis/metis_graph_dual.c
+++ b/src/libscotchmetis/metis_graph_dual.c
@@ -102,7 +102,7 @@ const SCOTCH_Num * const    edgetab)              /*+ Array of elements
     }
     for ( ; edgenum < edgennd; edgenum ++) {
       if ((edgetax[edgenum] <  baseval) ||
-          (edgetax[edgenum] > (baseval + vnodnbr))) {
+          (edgetax[edgenum] >= (baseval + vnodnbr))) {
         SCOTCH_errorPrint ("_SCOTCH_METIS_MeshToDual2: invalid input indices (2)");
         return            (METIS_ERROR_INPUT);
       }
-- 
2.43.0


From 0bcbc27af1ad85833e0276c69db7a5b650697af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 088/153] fix: METIS_MeshToDual: do not move a negative amount
 of data when there are no nodes

---
 src/libscotchmetis/metis_graph_dual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_dual.c b/src/libscotchmetis/metis_graph_dual.c
index 5662761..df1690f 100644
--- a/src/libscotchmetis/metis_graph_dual.c
+++ b/src/libscotchmetis/metis_graph_dual.c
@@ -193,7 +193,7 @@ const SCOTCH_Num * const    edgetab)              /*+ Array of elements
       srcedgetax[srcverttax[edgetax[edgenum] + velmnbr] ++] = vertnum;
   }
 
-  memMov (srcverttax + velmnnd + 1, srcverttax + velmnnd, (vnodnbr - 1) * sizeof (Gnum));  /* Re-build node part of vertex array */
+  memMov (srcverttax + velmnnd + 1, srcverttax + velmnnd, vnodnbr * sizeof (Gnum));  /* Re-build node part of vertex array */
   srcverttax[velmnnd] = verttax[velmnnd];
 
   return (METIS_OK);
-- 
2.43.0


From c7a7b630278f1ed67f47817abe1a6cb860b90a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 089/153] fix: METIS_PartMeshDual: accept the volume objective
 without communication sizes

---
 src/libscotchmetis/metis_graph_part_dual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_part_dual.c b/src/libscotchmetis/metis_graph_part_dual.c
index 037dc40..649aec7 100644
--- a/src/libscotchmetis/metis_graph_part_dual.c
+++ b/src/libscotchmetis/metis_graph_part_dual.c
@@ -215,7 +215,7 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
 
     if (((vsize != NULL) && (vsize != ne)) ||     /* If computation of communication volume wanted */
         ((options != NULL) && (options != ne) && (options[METIS_OPTION_OBJTYPE] == METIS_OBJTYPE_VOL)))
-      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval, vsize - baseval, *nparts, epart - baseval, objval);
+      o = _SCOTCH_METIS_OutputVol (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval, (edlotab != NULL) ? (vsize - baseval) : NULL, *nparts, epart - baseval, objval);
     else
       o = _SCOTCH_METIS_OutputCut (baseval, vertnbr + baseval, verttab - baseval, edgetab - baseval,
                                    (edlotab != NULL) ? (edlotab - baseval) : NULL, epart - baseval, objval);
-- 
2.43.0


From fe6e26b47473d646419a9a08b09b99f77691dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 090/153] fix: METIS_PartMeshDual: give isolated nodes a part
 in the caller's numbering

---
 src/libscotchmetis/metis_graph_part_dual.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotchmetis/metis_graph_part_dual.c b/src/libscotchmetis/metis_graph_part_dual.c
index 649aec7..228d1a1 100644
--- a/src/libscotchmetis/metis_graph_part_dual.c
+++ b/src/libscotchmetis/metis_graph_part_dual.c
@@ -242,7 +242,7 @@ SCOTCH_Num * const          npart)                /*+ Node partition array to be
     SCOTCH_Num          edgenum;
 
     edgenum = verttab[vnodnum + (vnodbas - baseval)];
-    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : 0; /* If non-isolated node, get part of first neighbor element, else 0 */
+    npart[vnodnum] = (edgenum != vendtab[vnodnum + (vnodbas - baseval)]) ? epart[edgetab[edgenum - baseval] - velmbas] : baseval; /* If non-isolated node, get part of first neighbor element, else 0 */
   }
 
   SCOTCH_meshExit (&meshdat);
-- 
2.43.0


From 1a7a66bacc10ede1c224eb4fb068a4e200a4cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 091/153] fix: symbolFax: reserve room for the diagonal and
 trailing temporary blocks

---
 src/esmumps/symbol_fax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esmumps/symbol_fax.c b/src/esmumps/symbol_fax.c
index 813b041..ffafa61 100644
--- a/src/esmumps/symbol_fax.c
+++ b/src/esmumps/symbol_fax.c
@@ -240,7 +240,7 @@ const Order * const         ordeptr)              /*+ Matrix ordering
            ctrbtmp != ~0; ctrbtmp = ctrbtax[ctrbtmp])
         ctrbsum += cblktax[ctrbtmp + 1].bloknum - cblktax[ctrbtmp].bloknum - 2; /* Sum contributing column blocks */
 
-      tlokmax = degrmax + ctrbsum;                /* Maximum possible number of blocks in temporary area */
+      tlokmax = degrmax + ctrbsum + 2;            /* Maximum possible number of blocks in temporary area, plus diagonal and trailing ones */
       sortoft = ((ptrdiff_t) tlokmax) * sizeof (SymbolBlok);
       if ((((ptrdiff_t) hashsiz) * (ptrdiff_t) sizeof (INT)) > sortoft) /* Compute offset of sort area */
         sortoft = (((ptrdiff_t) hashsiz) * (ptrdiff_t) sizeof (INT));
-- 
2.43.0


From 4782d43186fdb9235504722246903fdcdcc2bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 092/153] fix: esmumps_strat1: use the existing name of the
 HAMD method

---
 src/esmumps/library_esmumps_strats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esmumps/library_esmumps_strats.c b/src/esmumps/library_esmumps_strats.c
index 6a2e121..ea9afbe 100644
--- a/src/esmumps/library_esmumps_strats.c
+++ b/src/esmumps/library_esmumps_strats.c
@@ -101,7 +101,7 @@ char * const                straptr)
 
   for (levlval = 1, procmax = 1; procmax < procnbr; procmax <<= 1, levlval ++) ; /* Compute log2 of procnbr, + 1 */
 
-  hamxval = (leorval == 0) ? 'h' : 'f';           /* HAMD if 0, HAMF if 1 */
+  hamxval = (leorval == 0) ? 'd' : 'f';           /* HAMD if 0, HAMF if 1 */
 
   if (verbval != 0) {
     fprintf (stream, "Scotch strategy:\n- %ld levels of ND are necessary for %ld processors\n",
-- 
2.43.0


From 1e783712d8da9b694a286dbb5f7973cf723d1fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 093/153] fix: symbolFax: account for the base value in the
 size of the block array

---
 src/esmumps/symbol_fax.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/esmumps/symbol_fax.c b/src/esmumps/symbol_fax.c
index ffafa61..4fb8b48 100644
--- a/src/esmumps/symbol_fax.c
+++ b/src/esmumps/symbol_fax.c
@@ -248,13 +248,13 @@ const Order * const         ordeptr)              /*+ Matrix ordering
       tlndoft = tlokoft + ((ptrdiff_t) tlokmax) * sizeof (SymbolFaxTlok); /* Compute end of area          */
 
       if (((byte *) (bloktax + bloknum) + tlndoft) > /* If not enough room */
-          ((byte *) (bloktax + blokmax))) {
+          ((byte *) (bloktax + baseval + blokmax))) {
         SymbolBlok *        bloktmp;              /* Temporary pointer for array resizing */
 
         do {
           blokmax = blokmax + (blokmax >> 2) + 4; /* Increase block array size by 25% as long as it does not fit */
 
-          if (blokmax < bloknum) {
+          if (blokmax < (bloknum - baseval)) {
             errorPrint ("symbolFax: integer overflow");
             memFree    (bloktax + baseval);
             memFree    (cblktax + baseval);
@@ -262,7 +262,7 @@ const Order * const         ordeptr)              /*+ Matrix ordering
             return (1);
           }
         } while (((byte *) (bloktax + bloknum) + tlndoft) >
-                 ((byte *) (bloktax + blokmax)));
+                 ((byte *) (bloktax + baseval + blokmax)));
 
         if ((bloktmp = (SymbolBlok *) memRealloc (bloktax + baseval, (blokmax * sizeof (SymbolBlok)))) == NULL) {
           errorPrint ("symbolFax: out of memory (2)");
-- 
2.43.0


From 7a71bff944339124ddfa56c7a4d34c1f7ce000f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 094/153] fix: dgraphBuild: convert labels of all edge ends
 when edge arrays are not compact

---
 src/libscotch/dgraph_build.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/dgraph_build.c b/src/libscotch/dgraph_build.c
index fb36e01..8dcf6db 100644
--- a/src/libscotch/dgraph_build.c
+++ b/src/libscotch/dgraph_build.c
@@ -396,12 +396,16 @@ const Gnum                  degrlocmax)
       return (1);
     }
 
-    for (edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr, edgelocnum = baseval;
-         edsolocptr < edsoloctnd; edsolocptr ++, edgelocnum ++) {
-      edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
-      edsolocptr->edgelocnum = edgelocnum;
+    for (vertlocnum = baseval, edsolocptr = edsoloctab, edsoloctnd = edsoloctab + edgelocnbr;
+         vertlocnum < grafptr->vertlocnnd; vertlocnum ++) { /* Browse adjacencies, as edge array may not be compact */
+      for (edgelocnum = vertloctax[vertlocnum];
+           (edgelocnum < vendloctax[vertlocnum]) && (edsolocptr < edsoloctnd); edgelocnum ++, edsolocptr ++) {
+        edsolocptr->vlblglbnum = edgeloctax[edgelocnum];
+        edsolocptr->edgelocnum = edgelocnum;
+      }
     }
-    intSort2asc2 (edsoloctab, grafptr->edgelocnbr);
+    edsoloctnd = edsolocptr;                      /* In case user-provided number of edges is too big */
+    intSort2asc2 (edsoloctab, edsoloctnd - edsoloctab);
 
     procrcvnum = (grafptr->proclocnum + 1) % procglbnbr; /* Compute indices of neighbors */
     procsndnum = (grafptr->proclocnum - 1 + procglbnbr) % procglbnbr;
-- 
2.43.0


From bf6219a71a16bd823ea5ba7617917d0dc99b62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:18 +0000
Subject: [PATCH 095/153] fix: dgraphCheck: check edge starts, and edge loads
 even when no ghost array is present

---
 src/libscotch/dgraph_check.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index 600bc32..a10befc 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -292,7 +292,8 @@ const Dgraph * restrict const grafptr)
   for (vertlocnum = grafptr->baseval, edgelocnbr = 0; vertlocnum < grafptr->vertlocnnd; vertlocnum ++) {
     Gnum                edgelocnum;
 
-    if ((vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
+    if ((vertloctax[vertlocnum] < grafptr->baseval)       ||
+        (vendloctax[vertlocnum] < vertloctax[vertlocnum]) ||
         (vendloctax[vertlocnum] > (grafptr->edgelocsiz + grafptr->baseval))) {
       errorPrint ("dgraphCheck: inconsistent local vertex arrays");
       edgelocnbr = grafptr->edgelocnbr;           /* Avoid unwanted cascaded error messages */
@@ -311,9 +312,13 @@ const Dgraph * restrict const grafptr)
           cheklocval = 1;
           break;
         }
-
-        if ((edloloctax != NULL) &&
-            (edloloctax[edgelocnum] <= 0)) {
+      }
+      if (cheklocval != 0)                        /* Do not use outer loop index any longer */
+        break;
+    }
+    if (edloloctax != NULL) {                     /* Check edge loads even if no ghost edge array */
+      for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+        if (edloloctax[edgelocnum] <= 0) {
           errorPrint ("dgraphCheck: invalid edge load");
           edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
           vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
-- 
2.43.0


From 89885ba8f57b16afa614a6f2839dda6b3581c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:43 +0000
Subject: [PATCH 096/153] fix: dgraphCheck: refuse loops and edge ends that are
 not vertices

---
 src/libscotch/dgraph_check.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/dgraph_check.c b/src/libscotch/dgraph_check.c
index a10befc..aa4dbd5 100644
--- a/src/libscotch/dgraph_check.c
+++ b/src/libscotch/dgraph_check.c
@@ -302,13 +302,24 @@ const Dgraph * restrict const grafptr)
     }
     edgelocnbr += vendloctax[vertlocnum] - vertloctax[vertlocnum];
 
+    for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
+      if ((edgeloctax[edgelocnum] <  grafptr->procvrttab[0]) ||
+          (edgeloctax[edgelocnum] >= grafptr->procvrttab[procglbnbr])) {
+        errorPrint ("dgraphCheck: invalid local edge array");
+        edgelocnbr = grafptr->edgelocnbr;         /* Avoid unwanted cascaded error messages */
+        cheklocval = 1;
+        break;
+      }
+    }
+    if (cheklocval != 0)                          /* Do not browse vertices any longer */
+      break;
+
     if ((grafptr->flagval & DGRAPHHASEDGEGST) != 0) { /* If ghost edge array is valid */
       for (edgelocnum = vertloctax[vertlocnum]; edgelocnum < vendloctax[vertlocnum]; edgelocnum ++) {
         if ((edgegsttax[edgelocnum] < grafptr->baseval) ||
             (edgegsttax[edgelocnum] >= grafptr->vertgstnnd)) {
           errorPrint ("dgraphCheck: inconsistent ghost edge array");
           edgelocnbr = grafptr->edgelocnbr;       /* Avoid unwanted cascaded error messages */
-          vertlocnum = grafptr->vertlocnnd;       /* Exit outer loop                        */
           cheklocval = 1;
           break;
         }
@@ -462,6 +473,11 @@ const Dgraph * restrict const grafptr)
           Gnum                edgengbnnd;
           Gnum                edgengbsum;
 
+          if ((vertglbend - vertngbmin) >= grafptr->proccnttab[procngbnum]) { /* If end vertex is in a hole of the global numbering */
+            cheklocval = 1;
+            continue;
+          }
+
           for (edgengbnum = vertngbptr[vertglbend - vertngbmin],
                edgengbnnd = vendngbptr[vertglbend - vertngbmin], edgengbsum = 0;
                edgengbnum < edgengbnnd; edgengbnum ++) {
@@ -472,7 +488,8 @@ const Dgraph * restrict const grafptr)
                 cheklocval = 3;
             }
           }
-          if (edgengbsum < 1)                     /* If matching edge not found */
+          if ((edgengbsum < 1) ||                 /* If matching edge not found */
+              (vertglbend == vertglbnum))         /* Or if loop                 */
             cheklocval = 1;
           else if (edgengbsum > 1)                /* If duplicate edge */
             cheklocval = 2;
-- 
2.43.0


From ae3b2d230ac2c08c4b8d31f694dd4f4d2c3d86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:57 +0000
Subject: [PATCH 097/153] fix: dgraphRedist: keep permuted edge data from
 overwriting received data

---
 src/libscotch/dgraph_redist.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/dgraph_redist.c b/src/libscotch/dgraph_redist.c
index a541294..75c6b00 100644
--- a/src/libscotch/dgraph_redist.c
+++ b/src/libscotch/dgraph_redist.c
@@ -351,10 +351,9 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
            dstveloloctax  = ((srcgrafptr->veloloctax != NULL) ? dstveloloctax - baseval : NULL),
            dstvlblloctax -= baseval,
            memAllocGroup ((void **) (void *)
-                          &dstedgeloctax, (size_t) ((dstedlolocsiz +  /* TRICK: extra space required only if edge loads                                */
-                                                     MAX (dstedgelocdlt, srcgrafptr->degrglbmax)) * sizeof (Gnum)), /* TRICK: degrmax to avoid overlap */
-                          &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)), /* TRICK: send space will be edgeloctab or edloloctab                 */
-                          &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed              */
+                          &dstedgeloctax, (size_t) ((dstedgelocsiz + dstedlolocsiz) * sizeof (Gnum)), /* No overlap with receive array, as vertices may be permuted */
+                          &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)),
+                          &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed */
     errorPrint ("dgraphRedist2: out of memory (3)");
     cheklocval = 1;
   }
-- 
2.43.0


From 598f718e8c4892d8765ba1bd73a6738f4ea7f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:57 +0000
Subject: [PATCH 098/153] fix: dgraphLoadCent: propagate header errors, and do
 not fill vertex loads that are not wanted

---
 src/libscotch/dgraph_io_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 6c173b3..cbd30c0 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -224,7 +224,7 @@ const int                   protnum)              /* Root process number
         (reduglbtab[4] < 0)                     ||
         (reduglbtab[4] > 111)) {
       errorPrint ("dgraphLoadCent: bad input (1)");
-      cheklocval = 1;
+      reduglbtab[0] = 1;                          /* Propagate error to all processes */
     }
   }
 
@@ -267,7 +267,7 @@ const int                   protnum)              /* Root process number
     vertloctax  =
     vertlocptr -= baseval;
     vertlocptr += vertglbmax + 2;                 /* TRICK: "+2" for space for velolocsum */
-    if (proptab[2] != 0) {
+    if (velolocnbr != 0) {
       veloloctax  = vertlocptr;
       vertlocptr += vertglbmax;
     }
-- 
2.43.0


From 95bc05440373659f1834f8595be7660077f616ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 099/153] fix: dgraphLoadCent: keep edge load arrays consistent
 when some processes have no edges

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index cbd30c0..cc4abdd 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -597,7 +597,7 @@ const int                   protnum)              /* Root process number
           errorPrint ("dgraphLoadCent: communication error (13)");
           return     (1);
         }
-        if (edlolocnbr != 0) {
+        if ((proptab[1] != 0) && ((flagval & GRAPHIONOLOADEDGE) == 0)) { /* Array must exist even if process has no edges */
           edloloctax = edgeloctax + edgelocnbr;
           if (MPI_Irecv (edloloctax, edgelocnbr, GNUM_MPI, protnum, TAGEDLOLOCTAB, grafptr->proccomm, &requtab[requnbr ++]) != MPI_SUCCESS) {
             errorPrint ("dgraphLoadCent: communication error (14)");
-- 
2.43.0


From 68a5b7527a706408517d2f9f2c733058f1141949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 100/153] fix: SCOTCH_dgraphBand: do not use vertex labels as
 vertex indices on labelled graphs

---
 src/libscotch/library_dgraph_band.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 49bb48d..214d910 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -260,7 +260,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -290,7 +290,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
     Gnum              edgelocnum;
     Gnum              degrval;
 
-    vertlocnum = bandvlblloctax[bandvertlocnum] - vertlocadj;
+    vertlocnum = fronloctax[bandvertlocnum];
     bandvertloctax[bandvertlocnum] = bandedgelocnum;
     if (veloloctax != NULL) {
       Gnum                veloval;
@@ -326,7 +326,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
       Gnum              vertlocnum;
       Gnum              bandedgelocnum;
 
-      vertlocnum     = bandvlblloctax[bandvertlocnum] - vertlocadj;
+      vertlocnum     = fronloctax[bandvertlocnum];
       bandedgelocnum = bandvertloctax[bandvertlocnum];
       memCpy (bandedloloctax + bandedgelocnum,    /* Copy edge load array */
               &edloloctax[vertloctax[vertlocnum]],
-- 
2.43.0


From 333155127923dfadb51888e6a329062ed2c8f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 101/153] fix: SCOTCH_dgraphBand: set vertex load sum of band
 graphs without vertex loads

---
 src/libscotch/library_dgraph_band.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 214d910..b97f58e 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -252,7 +252,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
   edgegsttax = grafptr->edgegsttax;
 
   bandvertloctax = bandgrafptr->vertloctax;
-  bandvelolocsum = 0;
+  bandvelolocsum = (veloloctax != NULL) ? 0 : bandvertlocnbr;
   banddegrlocmax = 0;
   for (bandvertlocnum = bandedgelocnum = bandgrafptr->baseval; /* Build global vertex array of band graph */
        bandvertlocnum < bandvertlvlnum; bandvertlocnum ++) { /* For all vertices save for the last level  */
-- 
2.43.0


From 01bf0c5fb344c22f5bd4feb45273d3ca56dee31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 102/153] fix: dgraphBandGrow: set index of last level when
 distance is zero

---
 src/libscotch/dgraph_band_grow.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index 4f1942c..51b6845 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -191,7 +191,6 @@ Context *                         contptr)        /*+ Execution context
     int               procngbnum;
 
     bandvertlvlnum = bandvertlocnnd;              /* Save start index of current level, based */
-    *bandvertlvlptr = bandvertlvlnum;
 
     for (procngbnum = 0; procngbnum < procngbnbr; procngbnum ++) /* Build communication index arrays */
       nsndidxtab[procngbnum] = vsnddsptab[grafptr->procngbtab[procngbnum]];
@@ -299,6 +298,7 @@ Context *                         contptr)        /*+ Execution context
 
   memFree (procvgbtab);                           /* Free group leader */
 
+  *bandvertlvlptr = bandvertlvlnum;
   *bandvertlocptr = bandvertlocnnd - grafptr->baseval;
   *bandedgelocptr = bandedgelocnbr;
 
@@ -452,7 +452,6 @@ Context *                         contptr)        /*+ Execution context
     }
 
     bandvertlvlnum = bandvertlocnnd;              /* Save start index of current level, based */
-    *bandvertlvlptr = bandvertlvlnum;
 
     memCpy (nsndidxtab, nsnddsptab, procngbnbr * sizeof (Gnum)); /* Reset send buffer indices */
 
@@ -584,6 +583,7 @@ Context *                         contptr)        /*+ Execution context
 
   memFree (procvgbtab);                           /* Free group leader */
 
+  *bandvertlvlptr = bandvertlvlnum;
   *bandvertlocptr = bandvertlocnnd - grafptr->baseval;
   *bandedgelocptr = bandedgelocnbr;
 
-- 
2.43.0


From c25e82c33cf3ca15f9cea25712117d43a34db562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 103/153] fix: dgraphBandGrow: account for size of data in
 debug check of send buffers

---
 src/libscotch/dgraph_band_grow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index 51b6845..d60cfa4 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -235,7 +235,7 @@ Context *                         contptr)        /*+ Execution context
 #ifdef SCOTCH_DEBUG_DGRAPH2
           if ((grafptr->procvrttab[grafptr->procngbtab[procngbnum]]     >  vertglbend) ||
               (grafptr->procvrttab[grafptr->procngbtab[procngbnum] + 1] <= vertglbend) ||
-              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + grafptr->procrcvtab[grafptr->procngbtab[procngbnum]]))) {
+              (nsndidxtab[procngbnum] >= (vsnddsptab[grafptr->procngbtab[procngbnum]] + DGRAPHBANDGROWSMUL (grafptr->procrcvtab[grafptr->procngbtab[procngbnum]])))) {
             errorPrint (DGRAPHBANDGROWNSTR "Coll: internal error (1)");
             return     (1);
           }
-- 
2.43.0


From 89f3a9762bf021321a122b2c7b3c2b6094af0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 104/153] fix: SCOTCH_dgraphGrow: release context on error

---
 src/libscotch/library_dgraph_grow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_grow.c b/src/libscotch/library_dgraph_grow.c
index cb59dca..c550011 100644
--- a/src/libscotch/library_dgraph_grow.c
+++ b/src/libscotch/library_dgraph_grow.c
@@ -123,7 +123,7 @@ SCOTCH_Num * const          partgsttab)
 
   if (dgraphGhst (&grafdat) != 0) {               /* Compute ghost edge array if not already present */
     errorPrint (STRINGIFY (SCOTCH_dgraphGrow) ": cannot compute ghost edge array");
-    return (1);
+    goto abort;
   }
 
   bandpartgsttax = (partgsttab != NULL) ? (Gnum *) partgsttab - grafdat.baseval : NULL;
-- 
2.43.0


From 8cc18d173b646b295a71b9b7457009052650e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 105/153] fix: SCOTCH_dgraphCoarsen: do not copy multinode data
 when there are none

---
 src/libscotch/library_dgraph_coarsen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_coarsen.c b/src/libscotch/library_dgraph_coarsen.c
index c413063..349832d 100644
--- a/src/libscotch/library_dgraph_coarsen.c
+++ b/src/libscotch/library_dgraph_coarsen.c
@@ -150,7 +150,8 @@ SCOTCH_Num * const          multloctab)           /* Pointer to multinode array
       memFree (multlocptr);                       /* Free allocated multinode array (folded or not) */
   }
   else {                                          /* User provided a multinode array                */
-    if (foldval != DGRAPHCOARSENNONE) {           /* If folding took place, user array was not used */
+    if ((foldval != DGRAPHCOARSENNONE) &&         /* If folding took place, user array was not used */
+        (o == 0) && (multlocptr != NULL)) {       /* And if this process has folded coarse data     */
 #ifdef SCOTCH_DEBUG_LIBRARY2
       SCOTCH_Num          multlocsiz;             /* Size that the user may have reserved for the multinode folded array */
 
-- 
2.43.0


From d2fd1193af6683ea25ad03c07cbc41a1fab494e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 106/153] fix: dgraphBandGrowPtop: let calling routine free
 index array on error

---
 src/libscotch/dgraph_band_grow.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/dgraph_band_grow.c b/src/libscotch/dgraph_band_grow.c
index d60cfa4..320a4ae 100644
--- a/src/libscotch/dgraph_band_grow.c
+++ b/src/libscotch/dgraph_band_grow.c
@@ -366,7 +366,9 @@ Context *                         contptr)        /*+ Execution context
 
   vrcvdatsiz = DGRAPHBANDGROWSMUL (grafptr->procsndnbr); /* Senders and receivers inverted because we send local, not halo vertices */
   vsnddatsiz = DGRAPHBANDGROWSMUL (grafptr->vertgstnbr - grafptr->vertlocnbr);
-  if (memAllocGroup ((void **) (void *)
+  procvgbtab = NULL;                              /* In case of error */
+  if ((vnumgsttax == NULL) ||
+      memAllocGroup ((void **) (void *)
                      &procvgbtab, (size_t) ((procngbnbr + 1) * sizeof (Gnum)),
                      &nrcvdsptab, (size_t) ((procngbnbr + 1) * sizeof (Gnum)), /* +1 to check against end of array */
                      &nsnddsptab, (size_t) ((procngbnbr + 1) * sizeof (Gnum)), /* +1 to check against end of array */
@@ -392,11 +394,8 @@ Context *                         contptr)        /*+ Execution context
   }
 #endif /* SCOTCH_DEBUG_DGRAPH1 */
   if (reduglbtab[0] != 0) {
-    if (vnumgsttax != NULL) {
-      if (procvgbtab != NULL)
-        memFree (procvgbtab);                     /* Free group leader */
-      memFree (vnumgsttax);
-    }
+    if (procvgbtab != NULL)
+      memFree (procvgbtab);                       /* Free group leader; index array is freed by calling routine */
     return (1);
   }
 
-- 
2.43.0


From 190e7a9a3e6ef7e4721c19bdd55fb05b00bde3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 107/153] fix: dgraphFoldComm: do not set up communications for
 processes which keep all of their vertices

---
 src/libscotch/dgraph_fold_comm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_fold_comm.c b/src/libscotch/dgraph_fold_comm.c
index 171884a..7362c92 100644
--- a/src/libscotch/dgraph_fold_comm.c
+++ b/src/libscotch/dgraph_fold_comm.c
@@ -325,6 +325,8 @@ Gnum * restrict * restrict const                vertdlttabptr) /* Pointer to glo
           vertglbtmp  = (vertsndnbr - vertrcvnbr + commnbr) / (commnbr + 1); /* Compute overload including sender process */
           vertglbdlt += vertglbtmp;               /* Add extra overload to current overload                               */
           vertsndnbr -= vertglbtmp;               /* Extra overload vertices will not be sent by sender receiver process  */
+          if (vertsndnbr <= 0)                    /* If sender receiver process can keep all of its vertices              */
+            continue;                             /* It does not need to perform any communication                        */
         }
       }
       else {                                      /* There is room for adding messages       */
-- 
2.43.0


From d44005fd0c58c7235e2dbf60bd14f310fdc2510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 108/153] fix: hgraphOrderBl2 keeps blocks left unsplit in
 weighted graphs as leaves

---
 src/libscotch/hgraph_order_bl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libscotch/hgraph_order_bl.c b/src/libscotch/hgraph_order_bl.c
index 1be9c3d..5b85249 100644
--- a/src/libscotch/hgraph_order_bl.c
+++ b/src/libscotch/hgraph_order_bl.c
@@ -159,6 +159,11 @@ const Gnum                  cblkmin)              /*+ Minimum weight of column b
       vnodbas = vnodnum;                          /* Reset base for next block */
     }
     cblknbr = cblknum;                            /* Use effective number of blocks */
+    if (cblknbr < 2) {                            /* If block could not be split    */
+      memFree (cblkptr->cblktab);
+      cblkptr->cblktab = NULL;
+      return (0);
+    }
   }
 
   cblkptr->typeval = ORDERCBLKSEQU;               /* Node becomes a sequence of blocks */
-- 
2.43.0


From b1199a0518cf7601a3070c49582cc6be21261286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 109/153] fix: number fathers of distributed elimination trees
 from base value

---
 src/libscotch/dorder_tree_dist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dorder_tree_dist.c b/src/libscotch/dorder_tree_dist.c
index c61e9b6..2821467 100644
--- a/src/libscotch/dorder_tree_dist.c
+++ b/src/libscotch/dorder_tree_dist.c
@@ -295,7 +295,10 @@ Gnum * restrict const         sizeglbtab)
       return     (1);
     }
 #endif /* SCOTCH_DEBUG_DORDER2 */
-    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    Gnum                fathglbnum;
+
+    fathglbnum = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 2];
+    treeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = (fathglbnum < 0) ? -1 : (fathglbnum + ordeptr->baseval); /* Node indices are based */
     sizeglbtab[srt1glbtab[2 * dblkglbnum + 1]] = dataglbtab[4 * srt2glbtab[2 * dblkglbnum + 1] + 3];
   }
 
-- 
2.43.0


From 71efd19ef6769723bc2c2eba41bfa808eee36f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 110/153] fix: based label arrays in distributed ordering files

---
 src/libscotch/dorder_io.c      | 2 +-
 src/libscotch/dorder_io_tree.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/dorder_io.c b/src/libscotch/dorder_io.c
index bc23b26..4373f1c 100644
--- a/src/libscotch/dorder_io.c
+++ b/src/libscotch/dorder_io.c
@@ -142,7 +142,7 @@ FILE * restrict const         stream)
 
   if (grafptr->vlblloctax != NULL) {
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltax - grafptr->baseval, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSave: communication error (3)");
       return (1);
     }
diff --git a/src/libscotch/dorder_io_tree.c b/src/libscotch/dorder_io_tree.c
index f40fd19..ea2322c 100644
--- a/src/libscotch/dorder_io_tree.c
+++ b/src/libscotch/dorder_io_tree.c
@@ -128,7 +128,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
     if (cheklocval != 0)
       return (1);
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
-                     vlbltab, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
+                     vlbltab - grafptr->baseval, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dorderSaveTree2: communication error (3)");
       return     (1);
     }
@@ -148,7 +148,7 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
   if (protnum == ordeptr->proclocnum) {
     cheklocval = dorderGather (ordeptr, &corddat); /* Need inverse permutation too */
     if (cheklocval == 0)
-      cheklocval = funcptr (&corddat, vlbltab, stream);
+      cheklocval = funcptr (&corddat, (vlbltab != NULL) ? (vlbltab - grafptr->baseval) : NULL, stream);
     orderExit (&corddat);
   }
   else
-- 
2.43.0


From ed6675d738e5c924c98347ed2cf48946efab88c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 111/153] fix: dorderSaveBlock leaks its range array and loses
 write errors

---
 src/libscotch/dorder_io_block.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/dorder_io_block.c b/src/libscotch/dorder_io_block.c
index efb6dd5..c60d624 100644
--- a/src/libscotch/dorder_io_block.c
+++ b/src/libscotch/dorder_io_block.c
@@ -95,6 +95,7 @@ FILE * const                  stream)
                (Gnum) cordptr->cblknbr,
                (Gnum) cordptr->vnodnbr) < 0) {
     errorPrint ("dorderSaveBlock2: bad output (1)");
+    memFree    (rangtab);
     return     (1);
   }
 
@@ -102,7 +103,8 @@ FILE * const                  stream)
     o = intSave (stream, rangtab[cblknum]);
     putc (((cblknum & 7) == 7) ? '\n' : '\t', stream);
   }
-  o = intSave (stream, rangtab[cblknum]);
+  if (o == 1)
+    o = intSave (stream, rangtab[cblknum]);
   putc ('\n', stream);
 
   orderPeri (cordptr->peritab, cordptr->baseval, cordptr->vnodnbr, rangtab, cordptr->baseval); /* TRICK: re-use rangtab as permtab */
@@ -111,9 +113,12 @@ FILE * const                  stream)
     o = intSave (stream, rangtab[vertnum]);
     putc (((vertnum & 7) == 7) ? '\n' : '\t', stream);
   }
-  o = intSave (stream, rangtab[vertnum]);
+  if (o == 1)
+    o = intSave (stream, rangtab[vertnum]);
   putc ('\n', stream);
 
+  memFree (rangtab);
+
   if (o != 1)
     errorPrint ("dorderSaveBlock2: bad output (2)");
 
-- 
2.43.0


From 16e098d994958779188f1eaae4b035448024d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 112/153] fix: dorderPerm uses compact numbering for empty
 orderings of graphs with holes

---
 src/libscotch/dorder_perm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dorder_perm.c b/src/libscotch/dorder_perm.c
index 3b89b8c..5ba8053 100644
--- a/src/libscotch/dorder_perm.c
+++ b/src/libscotch/dorder_perm.c
@@ -137,7 +137,7 @@ Gnum * restrict const         permloctab)
 
     memFree (senddsptab);                         /* Free group leader */
 
-    for (vnodlocnum = 0, ordelocval = grafptr->procvrttab[grafptr->proclocnum]; /* Build identity permutation */
+    for (vnodlocnum = 0, ordelocval = grafptr->procdsptab[grafptr->proclocnum]; /* Build identity permutation */
          vnodlocnum < grafptr->vertlocnbr; vnodlocnum ++)
       permloctab[vnodlocnum] = ordelocval ++;
 
-- 
2.43.0


From 2219ca2b2f0504b7b53da8001ea3b57af3186948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 113/153] fix: distributed orderings of non-compact graphs and
 of graphs with holes

---
 src/libscotch/library_dgraph_order.c | 70 ++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/libscotch/library_dgraph_order.c b/src/libscotch/library_dgraph_order.c
index 7e08b11..559ea7b 100644
--- a/src/libscotch/library_dgraph_order.c
+++ b/src/libscotch/library_dgraph_order.c
@@ -146,6 +146,61 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy   +*/
   return (SCOTCH_dgraphOrderComputeList (grafptr, ordeptr, 0, NULL, straptr));
 }
 
+/* This routine builds a copy of the given
+** graph, without edge loads nor labels, the
+** vertex and edge arrays of which are compact,
+** and the global vertex numbering of which
+** has no holes.
+** It returns:
+** - 0   : on success.
+** - !0  : on error.
+*/
+
+static
+int
+dgraphOrderCompact (
+Dgraph * restrict const     srcgrafptr,           /*+ Graph to copy       +*/
+Dgraph * restrict const     indgrafptr)           /*+ Compact graph       +*/
+{
+  Dgraph              orggrafdat;                 /* Graph without unneeded data */
+  GraphPart *         partloctab;
+  int                 o;
+
+  orggrafdat = *srcgrafptr;
+  orggrafdat.flagval   &= ~DGRAPHFREEALL;
+  orggrafdat.edloloctax = NULL;
+  orggrafdat.vlblloctax = NULL;
+  orggrafdat.vnumloctax = NULL;
+
+  memSet (indgrafptr, 0, sizeof (Dgraph));        /* Compact graph uses communicator of original graph */
+  indgrafptr->proccomm   = srcgrafptr->proccomm;
+  indgrafptr->procglbnbr = srcgrafptr->procglbnbr;
+  indgrafptr->proclocnum = srcgrafptr->proclocnum;
+
+  if ((partloctab = (GraphPart *) memAlloc (srcgrafptr->vertlocnbr * sizeof (GraphPart))) == NULL)
+    errorPrint ("dgraphOrderCompact: out of memory"); /* Collective error handling below */
+  else
+    memSet (partloctab, 0, srcgrafptr->vertlocnbr * sizeof (GraphPart)); /* Keep all vertices */
+
+  o = (partloctab == NULL) ? 1 : 0;
+  if (MPI_Allreduce (MPI_IN_PLACE, &o, 1, MPI_INT, MPI_MAX, srcgrafptr->proccomm) != MPI_SUCCESS) {
+    errorPrint ("dgraphOrderCompact: communication error");
+    o = 1;
+  }
+  if (o == 0)
+    o = dgraphInducePart (&orggrafdat, partloctab - srcgrafptr->baseval, srcgrafptr->vertlocnbr, 0, indgrafptr);
+  if (o == 0) {
+    indgrafptr->vlblloctax = NULL;                /* Vertices of ordering are numbered without holes */
+    indgrafptr->vnumloctax = NULL;
+  }
+
+  if (partloctab != NULL)
+    memFree (partloctab);
+  dgraphExit (&orggrafdat);                       /* Free ghost arrays if allocated internally */
+
+  return (o);
+}
+
 /*+ This routine computes a partial ordering
 *** of the listed vertices of the API ordering
 *** structure graph with respect to the given
@@ -170,6 +225,8 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   Gnum                srclistnbr;                 /* Number of items in list      */
   Gnum * restrict     srclisttab;                 /* Subgraph vertex list         */
   const Strat *       ordstraptr;                 /* Pointer to ordering strategy */
+  int                 cheklocval;
+  int                 chekglbval;
   CONTEXTDECL        (libgrafptr);
   int                 o;
 
@@ -202,6 +259,18 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   srcgrafdat.s.flagval   &= ~DGRAPHFREEALL;       /* Do not free anything from it   */
   srcgrafdat.s.edloloctax = NULL;                 /* Never mind about edge loads    */
   srcgrafdat.s.vlblloctax = NULL;                 /* Do not propagate vertex labels */
+  cheklocval = ((srcgrafptr->vendloctax != (srcgrafptr->vertloctax + 1)) || /* If graph not compact or with holes in its numbering */
+                (memcmp (srcgrafptr->procvrttab, srcgrafptr->procdsptab, (srcgrafptr->procglbnbr + 1) * sizeof (Gnum)) != 0)) ? 1 : 0;
+  if (MPI_Allreduce (&cheklocval, &chekglbval, 1, MPI_INT, MPI_MAX, srcgrafptr->proccomm) != MPI_SUCCESS) {
+    errorPrint (STRINGIFY (SCOTCH_dgraphOrderComputeList) ": communication error");
+    goto abort;
+  }
+  if (chekglbval != 0) {                          /* Ordering methods only operate on compact graphs without holes */
+    if (dgraphOrderCompact (srcgrafptr, &srcgrafdat.s) != 0) {
+      errorPrint (STRINGIFY (SCOTCH_dgraphOrderComputeList) ": cannot create compact graph");
+      goto abort;
+    }
+  }
   srcgrafdat.vhallocnbr   = 0;                    /* No halo on graph               */
   srcgrafdat.vhndloctax   = srcgrafdat.s.vendloctax;
   srcgrafdat.ehallocnbr   = 0;
@@ -217,6 +286,7 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   dorderFree (srcordeptr);                        /* Clean all existing ordering data */
   if ((srccblkptr = dorderFrst (srcordeptr)) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_dgraphOrderComputeList) ": cannot create root column block");
+    hdgraphExit (&srcgrafdat);                    /* Free compact graph if it exists */
     goto abort;
   }
   o = hdgraphOrderSt (&srcgrafdat, srccblkptr, ordstraptr);
-- 
2.43.0


From 4a36c71fd2577fbc8ec27abc7cb3de919d6591de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 114/153] fix: dorderFree resets number of local column blocks

---
 src/libscotch/dorder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/dorder.c b/src/libscotch/dorder.c
index f7f8afb..50e8fbf 100644
--- a/src/libscotch/dorder.c
+++ b/src/libscotch/dorder.c
@@ -136,6 +136,7 @@ Dorder * restrict const     ordeptr)
     dorderFreeCblk (cblkptr);
   }
 
+  ordeptr->cblklocnbr      = 0;                   /* No more column blocks    */
   ordeptr->linkdat.nextptr =                      /* Loop double-chained list */
   ordeptr->linkdat.prevptr = &ordeptr->linkdat;
 }
-- 
2.43.0


From c9510007793620b02a38ed4780759c825b9e70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 115/153] fix: hdgraphOrderNd returns status of leaf orderings
 and disposes of leaf column blocks

---
 src/libscotch/hdgraph_order_nd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index 977fec3..e74814a 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -322,9 +322,11 @@ const HdgraphOrderNdParam * restrict const  paraptr)
     memFree (vspgrafdat.partgsttax + vspgrafdat.s.baseval); /* Free useless space */
     memFree (vspgrafdat.fronloctab);
 
-    hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf */
-    hdgraphExit    (grafptr);                     /* Free graph at this level   */
-    return (0);                                   /* Leaf has been processed    */
+    o = hdgraphOrderSt (grafptr, cblkptr, paraptr->ordstratlea); /* Order this leaf                       */
+    if (grafptr->levlnum > 0)                     /* If intermediate level nested dissection graph        */
+      dorderDispose (cblkptr);                    /* Dispose of column block node (may be kept as leaf)   */
+    hdgraphExit (grafptr);                        /* Free graph at this level                             */
+    return (o);                                   /* Leaf has been processed                              */
   }
 
   vspvnumtab[0] = vspgrafdat.fronloctab + vspgrafdat.complocsize[2]; /* TRICK: build vertex lists within frontier array */
-- 
2.43.0


From d078585606eb771a50e3c3f761f703a3beeccc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 116/153] fix: dgraphGatherAll of graphs whose compactness
 differs across processes

---
 src/libscotch/dgraph_gather_all.c | 88 ++++++++++---------------------
 1 file changed, 29 insertions(+), 59 deletions(-)

diff --git a/src/libscotch/dgraph_gather_all.c b/src/libscotch/dgraph_gather_all.c
index 3ccadb7..8bfc87f 100644
--- a/src/libscotch/dgraph_gather_all.c
+++ b/src/libscotch/dgraph_gather_all.c
@@ -117,7 +117,8 @@ const int                     protnum)            /* -1 means allgather */
   Gnum * restrict     edgetax;                    /* Target edge array for root, dummy for non-roots                    */
   Gnum * restrict     edlotax;                    /* Target edge load array for root, dummy for non-roots               */
   Gnum                vertlocnbr;                 /* Size of temporary distributed vertex array                         */
-  Gnum *              vertloctax;                 /* Temporary vertex array if graph is not compact [norestrict]        */
+  Gnum                vertlocnum;
+  Gnum *              vertloctax;                 /* Temporary array of vertex degrees to send [norestrict]             */
   Gnum                edgelocnbr;                 /* Size of temporary distributed edge array                           */
   Gnum *              edgeloctab;                 /* Temporary edge array if distributed graph not compact [norestrict] */
   Gnum *              recvcnttab;                 /* Count array for gather operations [norestrict]                     */
@@ -179,14 +180,8 @@ const int                     protnum)            /* -1 means allgather */
     }
   }
 
-  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is compact */
-    vertlocnbr =                                  /* No need to recompact arrays             */
-    edgelocnbr = 0;
-  }
-  else {                                          /* Need extra space to compact vertex and edge arrays before sending */
-    vertlocnbr = dgrfptr->vertlocnbr;
-    edgelocnbr = dgrfptr->edgelocnbr;
-  }
+  vertlocnbr = dgrfptr->vertlocnbr;               /* Degrees are sent because compactness may differ across processes */
+  edgelocnbr = (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) ? 0 : dgrfptr->edgelocnbr; /* Extra space only needed to compact edge arrays */
 
   if (cheklocval == 0) {
     if (memAllocGroup ((void **) (void *)
@@ -253,70 +248,45 @@ const int                     protnum)            /* -1 means allgather */
   }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
 
-  if (dgrfptr->vendloctax == (dgrfptr->vertloctax + 1)) { /* If distributed graph is compact                                                */
-    if (dgraphGatherAll3 (dgrfptr->vertloctax + baseval + 1, dgrfptr->vertlocnbr, /* Do not send first index, it is always equal to baseval */
-                          vendtax,                /* First index will always be equal to baseval too, and procdsptab holds based values     */
-                          dgrfptr->proccnttab, dgrfptr->procdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
-      errorPrint ("dgraphGatherAll2: communication error (3)");
-      return (1);
-    }
-
-    if (cgrfptr != NULL) {
-      Gnum                procnum;
+  vertloctax -= baseval;                          /* Base temporary vertex array */
+  for (vertlocnum = baseval; vertlocnum < dgrfptr->vertlocnnd; vertlocnum ++) /* Build vertex send array */
+    vertloctax[vertlocnum] = dgrfptr->vendloctax[vertlocnum] - dgrfptr->vertloctax[vertlocnum]; /* Get edge counts */
 
-      verttax[baseval] = baseval;
-      for (procnum = 1; procnum < dgrfptr->procglbnbr; procnum ++) { /* Adjust index sub-arrays for all processes except the first one */
-        Gnum                vertnum;
-        Gnum                vertnnd;
-        Gnum                edgedlt;
-
-        for (vertnum = dgrfptr->procdsptab[procnum] + 1,
-             vertnnd = dgrfptr->proccnttab[procnum] + vertnum,
-             edgedlt = verttax[vertnum - 1] - baseval;
-             vertnum < vertnnd; vertnum ++)
-          verttax[vertnum] += edgedlt;
-      }
-    }
-  }
-  else {                                          /* Distributed graph is not compact */
-    Gnum                vertlocnum;
+  if (edgelocnbr != 0) {                          /* If local part of distributed graph is not compact */
     Gnum * restrict     edgelocptr;
 
-    vertloctax -= baseval;                        /* Base temporary vertex array   */
-    for (vertlocnum = baseval, edgelocptr = edgeloctab; /* Build vertex send array */
+    for (vertlocnum = baseval, edgelocptr = edgeloctab; /* Build edge send array */
          vertlocnum < dgrfptr->vertlocnnd; vertlocnum ++) {
       Gnum                edgelocnum;
 
-      vertloctax[vertlocnum] = dgrfptr->vendloctax[vertlocnum] - dgrfptr->vertloctax[vertlocnum]; /* Get edge counts */
-
       for (edgelocnum = dgrfptr->vertloctax[vertlocnum]; edgelocnum < dgrfptr->vendloctax[vertlocnum]; edgelocnum ++)
         *edgelocptr ++ = edgeloctax[edgelocnum];
     }
+  }
 
-    if (dgraphGatherAll3 (vertloctax + baseval, dgrfptr->vertlocnbr,
-                          vendtax,                /* First index will always be equal to baseval, and procdsptab holds based values */
-                          dgrfptr->proccnttab, dgrfptr->procdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
-      errorPrint ("dgraphGatherAll2: communication error (4)");
-      return (1);
-    }
+  if (dgraphGatherAll3 (vertloctax + baseval, dgrfptr->vertlocnbr,
+                        vendtax,                  /* First index will always be equal to baseval, and procdsptab holds based values */
+                        dgrfptr->proccnttab, dgrfptr->procdsptab, protnum, dgrfptr->proccomm) != MPI_SUCCESS) {
+    errorPrint ("dgraphGatherAll2: communication error (3)");
+    return (1);
+  }
 
-    if (cgrfptr != NULL) {
-      Gnum                vertnum;
-      Gnum                edgenum;
+  if (cgrfptr != NULL) {
+    Gnum                vertnum;
+    Gnum                edgenum;
 
-      verttax[baseval] = baseval;
-      for (vertnum = baseval + 1, edgenum = baseval; /* Create compact centralized vertex array */
-           vertnum <= cgrfptr->vertnnd; vertnum ++) {
-        edgenum += verttax[vertnum];
-        verttax[vertnum] = edgenum;
-      }
+    verttax[baseval] = baseval;
+    for (vertnum = baseval + 1, edgenum = baseval; /* Create compact centralized vertex array */
+         vertnum <= cgrfptr->vertnnd; vertnum ++) {
+      edgenum += verttax[vertnum];
+      verttax[vertnum] = edgenum;
+    }
 #ifdef SCOTCH_DEBUG_DGRAPH2
-      if (verttax[cgrfptr->vertnnd] != (cgrfptr->edgenbr + baseval)) {
-        errorPrint ("dgraphGatherAll2: internal error (1)");
-        return (1);
-      }
-#endif /* SCOTCH_DEBUG_DGRAPH2 */
+    if (verttax[cgrfptr->vertnnd] != (cgrfptr->edgenbr + baseval)) {
+      errorPrint ("dgraphGatherAll2: internal error (1)");
+      return (1);
     }
+#endif /* SCOTCH_DEBUG_DGRAPH2 */
   }
 
   if (dgrfptr->veloloctax != NULL) {
-- 
2.43.0


From eca1f38629b5324b8c34f07c1c711b7865d7d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 117/153] fix: vdgraphSeparateDf accepts isolated separator
 vertices

---
 src/libscotch/vdgraph_separate_df.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/vdgraph_separate_df.c b/src/libscotch/vdgraph_separate_df.c
index dfb5454..6a681dd 100644
--- a/src/libscotch/vdgraph_separate_df.c
+++ b/src/libscotch/vdgraph_separate_df.c
@@ -168,13 +168,10 @@ const VdgraphSeparateDfParam * const  paraptr)    /*+ Method parameters +*/
 
   for (vertlocnum = grafptr->s.baseval, vanclocnnd = grafptr->s.vertlocnnd - 2; /* Do not account for anchor vertices in diffusion computations */
        vertlocnum < vanclocnnd; vertlocnum ++) {
-#ifdef SCOTCH_DEBUG_VDGRAPH2
-    if ((grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum]) == 0) {
-      errorPrint ("vdgraphSeparateDf: internal error (1)");
-      return     (1);
-    }
-#endif /* SCOTCH_DEBUG_VDGRAPH2 */
-    ielsloctax[vertlocnum] = 1.0F / (float) (grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum]);
+    Gnum                degrval;
+
+    degrval = grafptr->s.vendloctax[vertlocnum] - grafptr->s.vertloctax[vertlocnum];
+    ielsloctax[vertlocnum] = (degrval > 0) ? (1.0F / (float) degrval) : 1.0F; /* Separator vertices may be isolated */
     difogsttax[vertlocnum] = 0.0F;
   }
   ielsloctax[vanclocnnd]     = 1.0F / (float) reduglbtab[0];
-- 
2.43.0


From 45d16dc5da8b8483c9860e78fc9ce47c1b39f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 118/153] fix: dgraphStat computes edge load extrema and
 averages, and handles graphs without edges

---
 src/libscotch/library_dgraph_stat.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/library_dgraph_stat.c b/src/libscotch/library_dgraph_stat.c
index 26f7551..e87b4e3 100644
--- a/src/libscotch/library_dgraph_stat.c
+++ b/src/libscotch/library_dgraph_stat.c
@@ -246,7 +246,10 @@ double *                    edlodltptr)
         errorPrint (STRINGIFY (SCOTCH_dgraphStat) ": communication error (1)");
         return (1);
       }
-      edloglbavg = (double) edloglbsum / (double) (2 * srcgrafptr->edgeglbnbr);
+      edloglbavg = (double) edloglbsum / (double) srcgrafptr->edgeglbnbr; /* Edge number is a number of arcs */
+
+      srclstadat.edlomin = edlolocmin;
+      srclstadat.edlomax = edlolocmax;
 
       for (vertlocnum = srcgrafptr->baseval; vertlocnum < srcgrafptr->vertlocnnd; vertlocnum ++) {
         Gnum                edgelocnum;
@@ -310,7 +313,7 @@ double *                    edlodltptr)
   if (veloavgptr != NULL)
     *veloavgptr = (double) veloglbavg;
   if (velodltptr != NULL)
-    *velodltptr = srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr;
+    *velodltptr = (srcgrafptr->vertglbnbr > 0) ? srcgstadat.velodlt / (double) srcgrafptr->vertglbnbr : 0.0L;
 
   if (degrminptr != NULL)
     *degrminptr = (SCOTCH_Num) srcgstadat.degrmin;
@@ -319,7 +322,7 @@ double *                    edlodltptr)
   if (degravgptr != NULL)
     *degravgptr = (double) degrglbavg;
   if (degrdltptr != NULL)
-    *degrdltptr = srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr;
+    *degrdltptr = (srcgrafptr->vertglbnbr > 0) ? srcgstadat.degrdlt / (double) srcgrafptr->vertglbnbr : 0.0L;
 
   if (edlominptr != NULL)
     *edlominptr = (SCOTCH_Num) srcgstadat.edlomin;
@@ -330,7 +333,7 @@ double *                    edlodltptr)
   if (edloavgptr != NULL)
     *edloavgptr = (double) edloglbavg;
   if (edlodltptr != NULL)
-    *edlodltptr = srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr;
+    *edlodltptr = (srcgrafptr->edgeglbnbr > 0) ? srcgstadat.edlodlt / (double) srcgrafptr->edgeglbnbr : 0.0L;
 
   return (0);
 }
-- 
2.43.0


From 48c377ca011d8126180915613ef18fd10a58b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 119/153] fix: dgraphMapView computes CommDelta

---
 src/libscotch/library_dgraph_map_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_map_view.c b/src/libscotch/library_dgraph_map_view.c
index 3c1ed7d..19557d3 100644
--- a/src/libscotch/library_dgraph_map_view.c
+++ b/src/libscotch/library_dgraph_map_view.c
@@ -145,7 +145,7 @@ FILE * const                  stream)
   fprintf (stream, "M\tCommDelta=%f\n",
            (((double) cmlosum  * (double) cmdisum) == 0.0L)
            ? (double) 0.0L
-           : ((double) grafptr->edgeglbnbr) / (double) (cmlosum * 2));
+           : ((double) cmexsum * (double) (grafptr->edgeglbnbr / 2)) / ((double) cmlosum * (double) cmdisum));
 
   for (cdstnum = 0; cdstnum <= cdstmax; cdstnum ++) /* Print distance histogram */
     fprintf (stream, "M\tCmlosum[" ANUMSTRING "]=%f\n",
-- 
2.43.0


From e2d432c5db6ee015866b8034721bc092735ba7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 120/153] fix: dmapSave saves labels of based graphs and
 compact indices of graphs with holes

---
 src/libscotch/dmapping_io.c | 41 +++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/dmapping_io.c b/src/libscotch/dmapping_io.c
index e3e425b..be44d12 100644
--- a/src/libscotch/dmapping_io.c
+++ b/src/libscotch/dmapping_io.c
@@ -69,6 +69,36 @@
 
 DGRAPHALLREDUCEMAXSUMOP (1, 5)
 
+/* This routine turns a global vertex index,
+** which accounts for the holes that may exist
+** in the global numbering of the vertices,
+** into a compact global vertex index.
+** It returns:
+** - Gnum  : compact based global index.
+*/
+
+static
+Gnum
+dmapSaveVnum (
+const Dgraph * restrict const   grafptr,
+const Gnum                      vertglbnum)
+{
+  int                 procnum;
+  int                 procnnd;
+
+  for (procnum = 0, procnnd = grafptr->procglbnbr; (procnnd - procnum) > 1; ) { /* Find owner process by dichotomy */
+    int                 procmed;
+
+    procmed = (procnnd + procnum) / 2;
+    if (grafptr->procvrttab[procmed] <= vertglbnum)
+      procnum = procmed;
+    else
+      procnnd = procmed;
+  }
+
+  return (vertglbnum - grafptr->procvrttab[procnum] + grafptr->procdsptab[procnum]);
+}
+
 /* This routine saves a distributed mapping.
 ** The distributed graph structure is provided
 ** to access the distribution of vertex labels,
@@ -167,12 +197,12 @@ FILE * restrict const           stream)
   }
 
   if (grafptr->vlblloctax != NULL) {
+    vlbltax -= grafptr->baseval;                  /* Base label array, as procdsptab holds based values */
     if (commGatherv (grafptr->vlblloctax + grafptr->baseval, grafptr->vertlocnbr, GNUM_MPI,
                      vlbltax, grafptr->proccnttab, grafptr->procdsptab, GNUM_MPI, protnum, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint ("dmapSave: communication error (3)");
       return     (1);
     }
-    vlbltax -= grafptr->baseval;                  /* Base label array */
   }
 
   if (protnum == grafptr->proclocnum) {
@@ -187,7 +217,7 @@ FILE * restrict const           stream)
         Gnum                  vnumnum;
         Gnum                  termnum;
 
-        vnumnum = fragptr->vnumtab[fraglocnum];
+        vnumnum = dmapSaveVnum (grafptr, fragptr->vnumtab[fraglocnum]);
 #ifdef SCOTCH_DEBUG_DMAP2
         if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
           errorPrint ("dmapSave: invalid mapping (2)");
@@ -224,8 +254,11 @@ FILE * restrict const           stream)
       vnumrcvptr = termrcvtab + vertrcvnbr;       /* Vertex index array is just after terminal number array */
 
       for (termrcvptr = termrcvtab, termrcvnnd = termrcvtab + vertrcvnbr; termrcvptr < termrcvnnd; termrcvptr ++, vnumrcvptr ++) {
+        Gnum                vnumnum;
+
+        vnumnum = dmapSaveVnum (grafptr, *vnumrcvptr);
         if (fprintf (stream, GNUMSTRING "\t" GNUMSTRING "\n",
-                     (Gnum) ((grafptr->vlblloctax != NULL) ? vlbltax[*vnumrcvptr] : *vnumrcvptr),
+                     (Gnum) ((grafptr->vlblloctax != NULL) ? vlbltax[vnumnum] : vnumnum),
                      (Gnum) *termrcvptr) == EOF) {
           errorPrint ("dmapSave: bad output (3)");
           reduloctab[0] = 1;
@@ -246,7 +279,7 @@ FILE * restrict const           stream)
 #ifdef SCOTCH_DEBUG_DMAP2
         Gnum                vnumnum;
 
-        vnumnum = fragptr->vnumtab[fraglocnum];
+        vnumnum = dmapSaveVnum (grafptr, fragptr->vnumtab[fraglocnum]);
         if ((vnumnum < 0) || (vnumnum >= (grafptr->vertglbnbr + grafptr->baseval))) {
           errorPrint ("dmapSave: invalid mapping (3)");
           return     (1);
-- 
2.43.0


From b9fdc48f29c83a93ec55542d7d2046cb7589fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 121/153] fix: bdgraphBipartBd keeps band graph balance and
 ghost parts consistent

---
 src/libscotch/bdgraph_bipart_bd.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/bdgraph_bipart_bd.c b/src/libscotch/bdgraph_bipart_bd.c
index 553c4bd..d6845f9 100644
--- a/src/libscotch/bdgraph_bipart_bd.c
+++ b/src/libscotch/bdgraph_bipart_bd.c
@@ -190,10 +190,11 @@ const BdgraphBipartBdParam * const  paraptr)      /*+ Method parameters +*/
   bndgrafdat.fronglbnbr       = orggrafptr->fronglbnbr;
   bndgrafdat.complocload0     = orggrafptr->complocload0    + bndvertlocancadj; /* All loads are kept in band graph */
   bndgrafdat.compglbload0     = orggrafptr->compglbload0    + bndvertglbancadj;
-  bndgrafdat.compglbload0min  = orggrafptr->compglbload0min + bndvertglbancadj; /* Tilt extrema loads according to adjustments */
-  bndgrafdat.compglbload0max  = orggrafptr->compglbload0max + bndvertglbancadj;
-  bndgrafdat.compglbload0avg  = orggrafptr->compglbload0avg + bndvertglbancadj; /* Tilt average load according to adjustments */
-  bndgrafdat.compglbload0dlt  = orggrafptr->compglbload0dlt;
+  bndgrafdat.compglbload0avg  = (Gnum) (((double) bndgrafdat.s.veloglbsum * (double) orggrafptr->domnwght[0]) / /* Tilt average load according to adjustments */
+                                        (double) (orggrafptr->domnwght[0] + orggrafptr->domnwght[1]));
+  bndgrafdat.compglbload0min  = orggrafptr->compglbload0min + (bndgrafdat.compglbload0avg - orggrafptr->compglbload0avg); /* Tilt extrema loads the same way */
+  bndgrafdat.compglbload0max  = orggrafptr->compglbload0max + (bndgrafdat.compglbload0avg - orggrafptr->compglbload0avg);
+  bndgrafdat.compglbload0dlt  = bndgrafdat.compglbload0 - bndgrafdat.compglbload0avg;
   bndgrafdat.compglbsize0     = reduglbtab[3];
   bndgrafdat.commglbload      = orggrafptr->commglbload;
   bndgrafdat.commglbgainextn  = orggrafptr->commglbgainextn;
@@ -259,6 +260,12 @@ const BdgraphBipartBdParam * const  paraptr)      /*+ Method parameters +*/
     bdgraphExit (&bndgrafdat);
     return      (1);
   }
+  if (dgraphHaloSync (&bndgrafdat.s, (byte *) (bndgrafdat.partgsttax + bndgrafdat.s.baseval), GRAPHPART_MPI) != 0) { /* Ghost parts may not have been computed */
+    errorPrint  ("bdgraphBipartBd: cannot perform halo exchange");
+    memFree     (orgflagloctab);
+    bdgraphExit (&bndgrafdat);
+    return      (1);
+  }
 
   if (reduglbtab[0] == orggrafptr->s.procglbnbr) { /* If all anchors swapped parts, swap all parts of original vertices */
     Gnum                orgvertnum;
-- 
2.43.0


From c4a34f56a155bdc60a7001aa4b5c001243e67477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 122/153] fix: bdgraphBipartEx uses up to date ghost parts

---
 src/libscotch/bdgraph_bipart_ex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/bdgraph_bipart_ex.c b/src/libscotch/bdgraph_bipart_ex.c
index 22711f3..94593ca 100644
--- a/src/libscotch/bdgraph_bipart_ex.c
+++ b/src/libscotch/bdgraph_bipart_ex.c
@@ -135,6 +135,10 @@ const BdgraphBipartExParam * restrict const paraptr) /*+ Method parameters +*/
     errorPrint ("bdgraphBipartEx: cannot compute ghost edge array");
     return     (1);
   }
+  if (dgraphHaloSync (&grafptr->s, partgsttax + grafptr->s.baseval, GRAPHPART_MPI) != 0) { /* Ghost parts may not be up to date */
+    errorPrint ("bdgraphBipartEx: cannot perform halo exchange");
+    return     (1);
+  }
 
   sbbtnbr = (int) paraptr->sbbtnbr;
   sbbtmsk = (1 << sbbtnbr) - 1;
-- 
2.43.0


From e3f408db5fd340f8e12e641030debcdd5103a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 123/153] fix: kdgraphMapRbPart handles absent part arrays and
 large imbalance ratios

---
 src/libscotch/kdgraph_map_rb_part.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/kdgraph_map_rb_part.c b/src/libscotch/kdgraph_map_rb_part.c
index c60c710..2ed5c99 100644
--- a/src/libscotch/kdgraph_map_rb_part.c
+++ b/src/libscotch/kdgraph_map_rb_part.c
@@ -254,7 +254,8 @@ KdgraphMapRbPartGraph * restrict const  fldgrafptr)
 
   if ((indflagtab[0] | indflagtab[1]) == 0) {     /* If both subjobs stop    */
     fldgrafptr->procnbr = 0;                      /* Nothing to do on return */
-    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, actgrafptr->partgsttax + actgrafptr->s.baseval)); /* Map both subdomains in the same time */
+    return (kdgraphMapRbAddBoth (&actgrafptr->s, mappptr, domnsubtab, /* Map both subdomains in the same time */
+                                 (actgrafptr->partgsttax != NULL) ? actgrafptr->partgsttax + actgrafptr->s.baseval : NULL));
   }
 
   if ((2 * actgrafptr->compglbsize0) >= actgrafptr->s.vertglbnbr) { /* Get part of largest subgraph */
@@ -391,6 +392,10 @@ const KdgraphMapRbPartData * restrict const dataptr)
   actgrafdat.compglbload0max = actgrafdat.compglbload0avg +
                                (Gnum) MIN ((comploadavg - dataptr->comploadmin) * actgrafdat.domnwght[0],
                                            (dataptr->comploadmax - comploadavg) * actgrafdat.domnwght[1]);
+  if (actgrafdat.compglbload0min < 0)             /* Keep bounds meaningful when imbalance ratio is large */
+    actgrafdat.compglbload0min = 0;
+  if (actgrafdat.compglbload0max > actgrafdat.s.veloglbsum)
+    actgrafdat.compglbload0max = actgrafdat.s.veloglbsum;
 
   if ((o != 0) || (bdgraphBipartSt (&actgrafdat, dataptr->paraptr->stratsep) != 0)) { /* Bipartition edge-separation graph   */
     bdgraphExit (&actgrafdat);
-- 
2.43.0


From 152880a4ee2149bad32d8c3d8c5e4a65a2e4d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 124/153] fix: dgraphMapCompute discards previous mapping and
 agrees on local failures

---
 src/libscotch/dmapping.c           | 32 +++++++++++++++++++++++-------
 src/libscotch/dmapping.h           |  1 +
 src/libscotch/library_dgraph_map.c | 10 ++++++++--
 src/libscotch/module.h             |  1 +
 4 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/libscotch/dmapping.c b/src/libscotch/dmapping.c
index 4919010..e1c54eb 100644
--- a/src/libscotch/dmapping.c
+++ b/src/libscotch/dmapping.c
@@ -98,6 +98,27 @@ const Arch * restrict const   archptr)
 void
 dmapExit (
 Dmapping * const             dmapptr)
+{
+  dmapFree (dmapptr);
+
+#ifdef SCOTCH_PTHREAD
+  pthread_mutex_destroy (&dmapptr->mutelocdat);   /* Destroy local mutex */
+#endif /* SCOTCH_PTHREAD */
+
+#ifdef SCOTCH_DEBUG_DMAP2
+  memSet (dmapptr, ~0, sizeof (Dmapping));
+#endif /* SCOTCH_DEBUG_DMAP2 */
+}
+
+/* This routine frees the fragments of the given
+** mapping, which becomes an empty mapping.
+** It returns:
+** - VOID  : in all cases.
+*/
+
+void
+dmapFree (
+Dmapping * const             dmapptr)
 {
   DmappingFrag *      fragptr;
   DmappingFrag *      fragtmp;
@@ -110,13 +131,10 @@ Dmapping * const             dmapptr)
     memFree (fragptr);
   }
 
-#ifdef SCOTCH_PTHREAD
-  pthread_mutex_destroy (&dmapptr->mutelocdat);   /* Destroy local mutex */
-#endif /* SCOTCH_PTHREAD */
-
-#ifdef SCOTCH_DEBUG_DMAP2
-  memSet (dmapptr, ~0, sizeof (Dmapping));
-#endif /* SCOTCH_DEBUG_DMAP2 */
+  dmapptr->fragptr    = NULL;
+  dmapptr->fragnbr    =
+  dmapptr->vertlocmax =
+  dmapptr->vertlocnbr = 0;
 }
 
 /* This routine adds a fragment to the given
diff --git a/src/libscotch/dmapping.h b/src/libscotch/dmapping.h
index 692d178..7a52a84 100644
--- a/src/libscotch/dmapping.h
+++ b/src/libscotch/dmapping.h
@@ -99,6 +99,7 @@ typedef struct DmappingTermSort_ {
 
 int                         dmapInit            (Dmapping * restrict const, const Arch * restrict const);
 void                        dmapExit            (Dmapping * const);
+void                        dmapFree            (Dmapping * const);
 void                        dmapAdd             (Dmapping * restrict const, DmappingFrag * restrict const);
 int                         dmapSave            (const Dmapping * restrict const, const Dgraph * restrict const, FILE * restrict const);
 int                         dmapTerm            (const Dmapping * restrict const, const Dgraph * restrict const, Gnum * restrict const);
diff --git a/src/libscotch/library_dgraph_map.c b/src/libscotch/library_dgraph_map.c
index 1803bb0..a2f5a08 100644
--- a/src/libscotch/library_dgraph_map.c
+++ b/src/libscotch/library_dgraph_map.c
@@ -149,6 +149,7 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy   +*/
   LibDmapping * restrict  srcmappptr;
   Dgraph *                srcgrafptr;
   CONTEXTDECL            (libgrafptr);
+  int                     cheklocval;
   int                     o;
 
   o = 1;                                          /* Assume an error */
@@ -183,13 +184,18 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy   +*/
     goto abort;
   }
 
+  dmapFree (&srcmappptr->m);                      /* Discard any previously computed mapping */
   if (kdgraphInit (&mapgrafdat, srcgrafptr, &srcmappptr->m) != 0)
     goto abort;
   mapgrafdat.contptr = CONTEXTGETDATA (libgrafptr);
   mapmappdat.mappptr = &srcmappptr->m;
 
-  if (((o = kdgraphMapSt (&mapgrafdat, &mapmappdat, mapstraptr)) == 0) && /* Perform mapping */
-      (srcmappptr->termloctab != NULL))
+  cheklocval = kdgraphMapSt (&mapgrafdat, &mapmappdat, mapstraptr); /* Perform mapping                                      */
+  if (MPI_Allreduce (&cheklocval, &o, 1, MPI_INT, MPI_MAX, srcgrafptr->proccomm) != MPI_SUCCESS) { /* Sequential part may fail on some processes only */
+    errorPrint (STRINGIFY (SCOTCH_dgraphMapCompute) ": communication error");
+    o = 1;
+  }
+  if ((o == 0) && (srcmappptr->termloctab != NULL))
     o = dmapTerm (&srcmappptr->m, &mapgrafdat.s, srcmappptr->termloctab); /* Use "&mapgrafdat.s" to take advantage of ghost arrays */
   kdgraphExit (&mapgrafdat);
 
diff --git a/src/libscotch/module.h b/src/libscotch/module.h
index 3ced1d6..05b23e5 100644
--- a/src/libscotch/module.h
+++ b/src/libscotch/module.h
@@ -786,6 +786,7 @@
 
 #define dmapInit                    SCOTCH_NAME_INTERN (dmapInit)
 #define dmapExit                    SCOTCH_NAME_INTERN (dmapExit)
+#define dmapFree                    SCOTCH_NAME_INTERN (dmapFree)
 #define dmapAdd                     SCOTCH_NAME_INTERN (dmapAdd)
 #define dmapTerm                    SCOTCH_NAME_INTERN (dmapTerm)
 #define dmapSave                    SCOTCH_NAME_INTERN (dmapSave)
-- 
2.43.0


From 7585e51414bbbd5f3534e2b6b4a937d2450bad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:39 +0000
Subject: [PATCH 125/153] fix: ParMETIS_V3_NodeND succeeds whatever the number
 of processes

The routine returned METIS_ERROR, with a valid ordering, whenever the
number of processes was not a power of two or no array of sizes was
given, and ignored failures of the ordering itself.
---
 src/libscotchmetis/parmetis_dgraph_order.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_order.c b/src/libscotchmetis/parmetis_dgraph_order.c
index 731d06c..040a99d 100644
--- a/src/libscotchmetis/parmetis_dgraph_order.c
+++ b/src/libscotchmetis/parmetis_dgraph_order.c
@@ -147,14 +147,15 @@ MPI_Comm *                  commptr)
         SCOTCH_Num          bitsnbr;
         SCOTCH_Num          proctmp;
 
-        SCOTCH_dgraphOrderCompute (&grafdat, &ordedat, &stradat);
-        SCOTCH_dgraphOrderPerm    (&grafdat, &ordedat, order);
+        if ((SCOTCH_dgraphOrderCompute (&grafdat, &ordedat, &stradat) == 0) && /* Ordering is valid whatever the number of processes */
+            (SCOTCH_dgraphOrderPerm    (&grafdat, &ordedat, order) == 0))
+          o = METIS_OK;
 
         for (levlmax = -1, bitsnbr = 0, proctmp = procglbnbr; /* Count number of bits set to 1 in procglbnbr */
              proctmp != 0; levlmax ++, proctmp >>= 1)
           bitsnbr += proctmp & 1;
 
-        if (bitsnbr == 1) {
+        if ((o == METIS_OK) && (bitsnbr == 1)) {
           SCOTCH_Num          cblkglbnbr;
 
           if ((cblkglbnbr = SCOTCH_dgraphOrderCblkDist (&grafdat, &ordedat)) >= 0) {
@@ -206,7 +207,6 @@ MPI_Comm *                  commptr)
                 if ((rootnum >= 0) && (sizes != NULL)) { /* If no error above, go on processing separator tree         */
                   memSet (sizes, 0, (2 * procglbnbr - 1) * sizeof (SCOTCH_Num)); /* Set array of sizes to 0 by default */
                   _SCOTCH_ParMETIS_V3_NodeNDTree (sizes + (2 * procglbnbr - 1), sizeglbtab, sepaglbtab, levlmax, 0, rootnum, 1);
-                  o = METIS_OK;
                 }
               }
 
-- 
2.43.0


From ea7b31ed36ee7e5fe2f60e0b4c4b899269bfa959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:55 +0000
Subject: [PATCH 126/153] fix: ParMETIS_V3_PartKway reports failures and the
 cut of edgeless graphs

Return codes of the mapping and statistics routines were ignored, and
the edge cut was read from an uninitialized cell for graphs without
edges, for which no histogram is computed.
---
 src/libscotchmetis/parmetis_dgraph_part.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_part.c b/src/libscotchmetis/parmetis_dgraph_part.c
index c30a5c6..23bbd71 100644
--- a/src/libscotchmetis/parmetis_dgraph_part.c
+++ b/src/libscotchmetis/parmetis_dgraph_part.c
@@ -149,6 +149,9 @@ MPI_Comm *                  commptr)
   SCOTCH_Num          edgelocnbr;
   SCOTCH_Num *        edloloctab;
   SCOTCH_Num *        twintab;                    /* Integer array of target weights                               */
+  int                 o;
+
+  o = METIS_ERROR;                                /* Assume something will go wrong */
 
   if ((twintab = malloc (*nparts * sizeof (SCOTCH_Num))) == NULL)
     return (METIS_ERROR_MEMORY);
@@ -184,11 +187,13 @@ MPI_Comm *                  commptr)
           (SCOTCH_dgraphMapInit (&grafdat, &mappdat, &archdat, part) == 0)) {
         SCOTCH_Num          cdsttab[256];         /* Communication load histogram */
 
-        SCOTCH_dgraphMapCompute (&grafdat, &mappdat, &stradat);
-
-        SCOTCH_dgraphMapStat (&grafdat, &mappdat, NULL, NULL, NULL, NULL, NULL, NULL,
-                              NULL, NULL, NULL, NULL, cdsttab, NULL, NULL, NULL);
-        *edgecut = cdsttab[1];                    /* For mapping onto complete graphs, distance 1 is the cut */
+        cdsttab[1] = 0;                           /* Histogram not filled if graph has no edges */
+        if ((SCOTCH_dgraphMapCompute (&grafdat, &mappdat, &stradat) == 0) &&
+            (SCOTCH_dgraphMapStat (&grafdat, &mappdat, NULL, NULL, NULL, NULL, NULL, NULL,
+                                   NULL, NULL, NULL, NULL, cdsttab, NULL, NULL, NULL) == 0)) {
+          *edgecut = cdsttab[1];                  /* For mapping onto complete graphs, distance 1 is the cut */
+          o = METIS_OK;
+        }
 
         SCOTCH_dgraphMapExit (&grafdat, &mappdat);
       }
@@ -200,14 +205,14 @@ MPI_Comm *                  commptr)
 
   free (twintab);
 
-  if (baseval != 0) {                             /* MeTiS part array is based, Scotch is not */
+  if ((o == METIS_OK) && (baseval != 0)) {        /* MeTiS part array is based, Scotch is not */
     SCOTCH_Num          vertlocnum;
 
     for (vertlocnum = 0; vertlocnum < vertlocnbr; vertlocnum ++)
       part[vertlocnum] += baseval;
   }
 
-  return (METIS_OK);
+  return (o);
 }
 
 /*
-- 
2.43.0


From d3ccdd51dd2b455d5ceba7a73a5b6cead2beb3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:55 +0000
Subject: [PATCH 127/153] fix: ParMETIS target weights converted to
 proportionate integers

The renormalization factor was updated from rounded values, so that
target weights such as { 0.3, 0.7 } were turned into integers which were
not proportionate. Search for the smallest suitable factor instead, as in
the sequential METIS stub.
---
 src/libscotchmetis/parmetis_dgraph_part.c | 42 +++++++----------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/libscotchmetis/parmetis_dgraph_part.c b/src/libscotchmetis/parmetis_dgraph_part.c
index 23bbd71..c77cd14 100644
--- a/src/libscotchmetis/parmetis_dgraph_part.c
+++ b/src/libscotchmetis/parmetis_dgraph_part.c
@@ -72,7 +72,8 @@
 ** - void  : in all cases.
 */
 
-#define EPSILON 1e-6F
+#define EPSILON             1e-6F
+#define FLOTADJMAX          10000.0F              /* Maximum renormalization factor */
 
 static
 void
@@ -81,41 +82,22 @@ const SCOTCH_Num            valunbr,
 const float * const         flottab,
 SCOTCH_Num * const          intetab)
 {
-  SCOTCH_Num          inteold;                    /* Previous value to avoid recomputing things */
-  float               flotold;                    /* Previous value to avoid recomputing things */
   float               flotadj;
   SCOTCH_Num          i;
 
-  flotold = -1.0F;                                /* No previous value yet */
-  for (i = 0, flotadj = 1.0; i < valunbr; i ++) {
-    float               flotval;
-    float               flottmp;
+  for (flotadj = 1.0F; flotadj < FLOTADJMAX; flotadj += 1.0F) { /* Search for smallest renormalization factor */
+    for (i = 0; i < valunbr; i ++) {
+      float               flotval;
 
-    flotval = flottab[i];
-    if (flotval == flotold)                       /* Skip if same value */
-      continue;
-
-    flotold  = flotval;                           /* Remember old value                        */
-    flotval *= flotadj;                           /* See if renormalization factor works       */
-    flottmp  = flotval - floorf (flotval + EPSILON); /* Determine its possible fractional part */
-    if (fabs (flottmp) >= EPSILON) {              /* If a residual fractional part exists      */
-      flottmp = flotadj / flottmp;                /* Incorporate it in renormalization factor  */
-      flotadj = (flotadj * flottmp) / (float) intGcd ((SCOTCH_Num) round (flotadj), (SCOTCH_Num) round (flottmp));
-    }
-  }
-
-  flotold = -1.0F;                                /* No previous value yet */
-  inteold = 0;
-  for (i = 0; i < valunbr; i ++) {
-    float               flotval;
-
-    flotval = flottab[i];
-    if (flotval != flotold) {                     /* If not same value  */
-      flotold = flotval;                          /* Remember old value */
-      inteold = (SCOTCH_Num) round (flotval * flotadj);
+      flotval = flottab[i] * flotadj;             /* See if renormalization factor works             */
+      if (fabsf (flotval - roundf (flotval)) >= EPSILON * flotadj) /* If a residual fractional part exists */
+        break;
     }
-    intetab[i] = inteold;
+    if (i >= valunbr)                             /* If all values are turned into integers, keep factor */
+      break;
   }
+  for (i = 0; i < valunbr; i ++)
+    intetab[i] = (SCOTCH_Num) roundf (flottab[i] * flotadj);
 }
 
 int
-- 
2.43.0


From 9ec35a9843e07ea7b2ed93fb4c449cc0519d7823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 128/153] fix: gmap and gpart read the vertex migration cost
 file instead of erasing it

---
 src/scotch/gmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/gmap.c b/src/scotch/gmap.c
index edbd5e3..6472871 100644
--- a/src/scotch/gmap.c
+++ b/src/scotch/gmap.c
@@ -97,7 +97,7 @@ static File                 C_fileTab[C_FILENBR] = { /* File array
                               { FILEMODEW },
                               { FILEMODER },
                               { FILEMODER },
-                              { FILEMODEW } };
+                              { FILEMODER } };
 
 static const char *         C_usageList[] = {     /* Usage */
   "gmap [<input source file> [<input target file> [<output mapping file> [<output log file>]]]] <options>",
-- 
2.43.0


From d47f4985a481ed31238a0ae840af3f2e73fde92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 129/153] fix: atst displays the smallest distance and counts
 every pair once

---
 src/scotch/atst.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/scotch/atst.c b/src/scotch/atst.c
index 32caa0e..a963cc4 100644
--- a/src/scotch/atst.c
+++ b/src/scotch/atst.c
@@ -158,7 +158,7 @@ char *                      argv[])
       (termnum != termnbr))
     errorPrint ("main: cannot enumerate terminal domains");
 
-  distmin = (SCOTCH_Num) (((unsigned long) ((SCOTCH_Num) -1)) >> 1); /* Set to maximum number in Anum */
+  distmin = (termnbr > 1) ? SCOTCH_NUMMAX : 0;    /* Set to maximum number in Anum, if distances exist */
   distmax = 0;
   distsum = 0;
 
@@ -180,10 +180,7 @@ char *                      argv[])
   distdlt = 0.0L;
 
   for (ter0num = 0; ter0num < termnbr; ter0num ++) { /* For all pairs of terminal domains */
-    for (ter1num = 0; ter1num < termnbr; ter1num ++) {
-      if (ter1num == ter0num)
-	continue;
-
+    for (ter1num = ter0num + 1; ter1num < termnbr; ter1num ++) {
       distdlt += fabs ((double) SCOTCH_archDomDist (&archdat, &termtab[ter0num], &termtab[ter1num]) - distavg);
     }
   }
-- 
2.43.0


From 6fdd14d1bb5e67a7e4416a468406128eedee1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:21 +0000
Subject: [PATCH 130/153] fix: mord saves the separator tree when asked with
 its documented option -t

---
 src/scotch/mord.c | 9 +++++++++
 src/scotch/mord.h | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scotch/mord.c b/src/scotch/mord.c
index 2f621dc..c29ce87 100644
--- a/src/scotch/mord.c
+++ b/src/scotch/mord.c
@@ -71,6 +71,7 @@ static File                 C_fileTab[C_FILENBR] = { /* File array
                               { FILEMODER },
                               { FILEMODEW },
                               { FILEMODEW },
+                              { FILEMODEW },
                               { FILEMODEW } };
 
 static const char *         C_usageList[] = {
@@ -179,6 +180,12 @@ char *                      argv[])
           if ((SCOTCH_stratMeshOrder (&stradat, straptr)) != 0)
             errorPrint ("main: invalid ordering strategy");
           break;
+        case 'T' :                                /* Output separator tree */
+        case 't' :
+          flagval |= C_FLAGTREOUT;
+          if (argv[i][2] != '\0')
+            C_filenametreout = &argv[i][2];
+          break;
         case 'V' :
           fprintf (stderr, "mord, version " SCOTCH_VERSION_STRING "\n");
           fprintf (stderr, SCOTCH_COPYRIGHT_STRING "\n");
@@ -243,6 +250,8 @@ char *                      argv[])
   SCOTCH_meshOrderSave (&meshdat, &ordedat, C_filepntrordout); /* Write ordering     */
   if (flagval & C_FLAGMAPOUT)                     /* If mapping wanted               */
     SCOTCH_meshOrderSaveMap (&meshdat, &ordedat, C_filepntrmapout); /* Write mapping */
+  if (flagval & C_FLAGTREOUT)                     /* If separator tree wanted        */
+    SCOTCH_meshOrderSaveTree (&meshdat, &ordedat, C_filepntrtreout); /* Write tree   */
 
   clockStop  (&runtime[0]);                       /* Get output time */
 
diff --git a/src/scotch/mord.h b/src/scotch/mord.h
index 0449b4c..7ea1dd1 100644
--- a/src/scotch/mord.h
+++ b/src/scotch/mord.h
@@ -52,18 +52,20 @@
 
 /*+ File name aliases. +*/
 
-#define C_FILENBR                   4             /* Number of files in list                */
+#define C_FILENBR                   5             /* Number of files in list                */
 #define C_FILEARGNBR                3             /* Number of files which can be arguments */
 
 #define C_filenamesrcinp            fileBlockName (C_fileTab, 0) /* Source graph input file name */
 #define C_filenameordout            fileBlockName (C_fileTab, 1) /* Ordering output file name    */
 #define C_filenamelogout            fileBlockName (C_fileTab, 2) /* Log file name                */
 #define C_filenamemapout            fileBlockName (C_fileTab, 3) /* Separator mapping file name  */
+#define C_filenametreout            fileBlockName (C_fileTab, 4) /* Separator tree file name     */
 
 #define C_filepntrsrcinp            fileBlockFile (C_fileTab, 0) /* Source graph input file */
 #define C_filepntrordout            fileBlockFile (C_fileTab, 1) /* Ordering output file    */
 #define C_filepntrlogout            fileBlockFile (C_fileTab, 2) /* Log file                */
 #define C_filepntrmapout            fileBlockFile (C_fileTab, 3) /* Separator mapping file  */
+#define C_filepntrtreout            fileBlockFile (C_fileTab, 4) /* Separator tree file     */
 
 /*+ Process flags. +*/
 
@@ -71,3 +73,4 @@
 #define C_FLAGMAPOUT                0x0001        /* Output mapping data       */
 #define C_FLAGVERBSTR               0x0002        /* Output strategy string    */
 #define C_FLAGVERBTIM               0x0004        /* Output timing information */
+#define C_FLAGTREOUT                0x0008        /* Output separator tree     */
-- 
2.43.0


From 68be3a4e96b20f72b27fb736bd88f5910a81d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:21 +0000
Subject: [PATCH 131/153] fix: gout draws matrices without reading outside of
 its arrays

---
 src/scotch/gout_o.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scotch/gout_o.c b/src/scotch/gout_o.c
index e9f790a..4e74150 100644
--- a/src/scotch/gout_o.c
+++ b/src/scotch/gout_o.c
@@ -418,7 +418,7 @@ FILE * const                stream)               /* Output stream
   SCOTCH_Num          vertnum;
   SCOTCH_Num *        edgeptr;
 
-  if ((nonztab = memAlloc ((grafptr->vertnbr + 1) * sizeof (SCOTCH_Num))) == NULL) {
+  if ((nonztab = memAlloc ((grafptr->vertnbr + 2) * sizeof (SCOTCH_Num))) == NULL) {
     errorPrint ("outDrawPosMatr: out of memory");
     return (1);
   }
@@ -466,7 +466,9 @@ FILE * const                stream)               /* Output stream
   fprintf (stream, "0 setgray newpath\n");        /* Select black color */
 
   for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
-    colnum = (mapptr->labltab[vertnum] == ~0) ? vertnum : mapptr->labltab[vertnum];
+    colnum = mapptr->labltab[vertnum];
+    if ((colnum < 0) || (colnum >= grafptr->vertnbr)) /* If no valid column number */
+      colnum = vertnum;
 
     fprintf (stream, SCOTCH_NUMSTRING "\n",       /* Set column value */
              (SCOTCH_Num) colnum);
@@ -477,7 +479,7 @@ FILE * const                stream)               /* Output stream
         nonztab[*edgeptr] = 1;
     }
     nonztab[colnum] = 1;                          /* Diagonal is non-zero */
-    for (nonzfrst = 0; nonzfrst <= vertnum; nonzfrst ++) {
+    for (nonzfrst = 0; nonzfrst <= colnum; nonzfrst ++) {
       if (nonztab[nonzfrst] != 0) {               /* A non-zero has been found */
         for (nonzlast = nonzfrst; nonztab[nonzlast] != 0; nonzlast ++) ;
         if ((nonzlast - nonzfrst) > 1)            /* Draw row block coefficient */
-- 
2.43.0


From 5bcacef054953cb6205c302492716d21dfce2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:34 +0000
Subject: [PATCH 132/153] fix: gout does not write past the end of the edge
 array of the graph

---
 src/scotch/gout_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/gout_c.c b/src/scotch/gout_c.c
index b376707..99cc242 100644
--- a/src/scotch/gout_c.c
+++ b/src/scotch/gout_c.c
@@ -213,7 +213,7 @@ char *                      argv[])
 
     for (vertnum = 0; vertnum <= grafdat.vertnbr; vertnum ++)
       grafdat.verttab[vertnum] -= grafdat.baseval;
-    for (edgenum = 0; edgenum <= grafdat.edgenbr; edgenum ++)
+    for (edgenum = 0; edgenum < grafdat.edgenbr; edgenum ++)
       grafdat.edgetab[edgenum] -= grafdat.baseval;
   }
 
-- 
2.43.0


From a72af1659123f8e09bf8893aa7ef651bcddd755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:41 +0000
Subject: [PATCH 133/153] fix: gout writes Tulip meshes of graphs whose base
 value is not zero

---
 src/scotch/gout_o.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/scotch/gout_o.c b/src/scotch/gout_o.c
index 4e74150..0c8625d 100644
--- a/src/scotch/gout_o.c
+++ b/src/scotch/gout_o.c
@@ -818,7 +818,6 @@ FILE * const                stream)               /* Output stream
   char                pictimestr[64];
   double              color[3];                   /* Vertex color  */
   SCOTCH_Num          vertnum;
-  const SCOTCH_Num *  edgetax;
   SCOTCH_Num          edgeidx;
   char                c;
 
@@ -850,7 +849,6 @@ FILE * const                stream)               /* Output stream
   fprintf (stream, SCOTCH_NUMSTRING ")\n",
            (SCOTCH_Num) (vertnum + grafptr->baseval));
 
-  edgetax = grafptr->edgetab - grafptr->baseval;
   for (vertnum = 0, edgeidx = grafptr->baseval; vertnum < grafptr->vertnbr; vertnum ++) {
     SCOTCH_Num          edgenum;
     SCOTCH_Num          edgennd;
@@ -859,14 +857,14 @@ FILE * const                stream)               /* Output stream
          edgenum < edgennd; edgenum ++) {
       SCOTCH_Num          vertend;
 
-      vertend = edgetax[edgenum];
-      if (vertend <= vertnum)                     /* True even if baseval=1 and as vertnum unbased */
+      vertend = grafptr->edgetab[edgenum];        /* Graph is unbased */
+      if (vertend <= vertnum)
         continue;
 
       fprintf (stream, "(edge " SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING "\t" SCOTCH_NUMSTRING ")\n",
                (SCOTCH_Num) (edgeidx ++),
                (SCOTCH_Num) (vertnum + grafptr->baseval),
-               (SCOTCH_Num) vertend);
+               (SCOTCH_Num) (vertend + grafptr->baseval));
     }
   }
 
@@ -903,9 +901,9 @@ FILE * const                stream)               /* Output stream
 
   fprintf (stream, "(property 0 size \"viewSize\"\n(default \"(0,0,0)\" \"(0,0,0)\")"); /* Write default node size */
   if (O_outParam.TulMesh.disk == 'd') {           /* If disks wanted */
-    const C_GeoVert *   geomtax;
+    const C_GeoVert *   geomtab;
 
-    geomtax = geomptr->verttab - grafptr->baseval;
+    geomtab = geomptr->verttab;                   /* Graph is unbased */
     fprintf (stream, "\n");
     c = '\n';
     for (vertnum = 0; vertnum < grafptr->vertnbr; vertnum ++) {
@@ -926,10 +924,10 @@ FILE * const                stream)               /* Output stream
         SCOTCH_Num          vertend;
         double              distval;
 
-        vertend = edgetax[edgenum];
-        distval = (geomtax[vertend].x - vertpos.x) * (geomtax[vertend].x - vertpos.x) +
-                  (geomtax[vertend].y - vertpos.y) * (geomtax[vertend].y - vertpos.y) +
-                  (geomtax[vertend].z - vertpos.z) * (geomtax[vertend].z - vertpos.z);
+        vertend = grafptr->edgetab[edgenum];
+        distval = (geomtab[vertend].x - vertpos.x) * (geomtab[vertend].x - vertpos.x) +
+                  (geomtab[vertend].y - vertpos.y) * (geomtab[vertend].y - vertpos.y) +
+                  (geomtab[vertend].z - vertpos.z) * (geomtab[vertend].z - vertpos.z);
         if (distval < distmin)
           distmin = distval;
       }
-- 
2.43.0


From 1ad425e184ba6b09a98b080cd06ddc46f56ed687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 134/153] fix: amk_grf takes the base value into account in
 lists of vertices of labelled graphs

---
 src/scotch/amk_grf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/amk_grf.c b/src/scotch/amk_grf.c
index f4cf2a2..1ccdf31 100644
--- a/src/scotch/amk_grf.c
+++ b/src/scotch/amk_grf.c
@@ -204,7 +204,7 @@ char *                      argv[])
 
       for (vertnum = 0; vertnum < vertnbr; vertnum ++) { /* Initialize sort area */
         sorttab[vertnum].vlblnum = vlbltab[vertnum];
-        sorttab[vertnum].vertnum = vertnum;
+        sorttab[vertnum].vertnum = vertnum + baseval;
       }
       intSort2asc1 (sorttab, vertnbr);            /* Sort by ascending labels */
 
-- 
2.43.0


From 754835e85dffd263ba8187dc16d2131d7640093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:20 +0000
Subject: [PATCH 135/153] fix: intLoad refuses values which do not fit in an
 integer

---
 src/libscotch/common_integer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/common_integer.c b/src/libscotch/common_integer.c
index 991c06b..aae8d07 100644
--- a/src/libscotch/common_integer.c
+++ b/src/libscotch/common_integer.c
@@ -82,7 +82,8 @@ INT * const                 valptr)               /*+ Area where to put value +*
 {
   int                 sign;                       /* Sign flag      */
   int                 car;                        /* Character read */
-  INT                 val;                        /* Value          */
+  UINT                val;                        /* Absolute value */
+  UINT                max;                        /* Maximum value  */
 
   sign = 0;                                       /* Assume positive constant     */
   for ( ; ; ) {                                   /* Consume whitespaces and sign */
@@ -104,16 +105,19 @@ INT * const                 valptr)               /*+ Area where to put value +*
   }
   if ((car < '0') || (car > '9'))                 /* If first char is non numeric */
     return (0);                                   /* Then it is an error          */
-  val = car - '0';                                /* Get first digit              */
+  val = (UINT) (car - '0');                       /* Get first digit              */
+  max = (UINT) INTVALMAX + (UINT) sign;           /* Largest absolute value       */
   for ( ; ; ) {
     car = getc (stream);
     if ((car < '0') || (car > '9')) {
       ungetc (car, stream);
       break;
     }
-    val = val * 10 + (car - '0');                 /* Accumulate digits */
+    if (val > ((max - (UINT) (car - '0')) / 10))  /* If value cannot be represented */
+      return (0);                                 /* Then it is an error            */
+    val = val * 10 + (UINT) (car - '0');          /* Accumulate digits */
   }
-  *valptr = (sign != 0) ? (- val) : val;          /* Set result */
+  *valptr = (INT) ((sign != 0) ? (0 - val) : val); /* Set result */
 
   return (1);
 }
-- 
2.43.0


From 137aee156df7010f4694bf12b54007d0eee51adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:20 +0000
Subject: [PATCH 136/153] fix: graphLoad refuses malformed graph files instead
 of accessing memory out of bounds

---
 src/libscotch/graph_io.c | 51 +++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 57da146..2d5e311 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -123,6 +123,7 @@ const GraphFlag             flagval)              /* Graph loading flags
       (intLoad (stream, &grafptr->edgenbr) != 1) ||
       (intLoad (stream, &baseadj)          != 1) ||
       (intLoad (stream, &propval)          != 1) ||
+      (baseadj < 0)                              ||
       (propval < 0)                              ||
       (propval > 111)) {
     errorPrint ("graphLoad: bad input (2)");
@@ -151,6 +152,11 @@ const GraphFlag             flagval)              /* Graph loading flags
     grafptr->baseval = baseval;                   /* Set wanted graph base    */
     baseadj          = baseval - baseadj;         /* Update base adjust       */
   }
+  if ((grafptr->vertnbr >= (INTVALMAX - grafptr->baseval)) || /* If indices cannot be represented */
+      (grafptr->edgenbr >  (INTVALMAX - grafptr->baseval))) {
+    errorPrint ("graphLoad: graph too large");
+    return (1);
+  }
   if (proptab[0] != 0)                            /* If vertex labels, no base adjust */
     baseadj = 0;
 
@@ -165,8 +171,10 @@ const GraphFlag             flagval)              /* Graph loading flags
       (memAllocGroup ((void **) (void *)
                       &grafptr->edgetax, (size_t) (grafptr->edgenbr       * sizeof (Gnum)),
                       &grafptr->edlotax, (size_t) (edlosiz                * sizeof (Gnum)), NULL) == NULL)) {
-    if (grafptr->verttax != NULL)
+    if (grafptr->verttax != NULL) {
       memFree (grafptr->verttax);
+      grafptr->verttax = NULL;                    /* Already freed */
+    }
     errorPrint ("graphLoad: out of memory");
     graphFree  (grafptr);
     return (1);
@@ -208,9 +216,15 @@ const GraphFlag             flagval)              /* Graph loading flags
         graphFree  (grafptr);
         return (1);
       }
-      if (grafptr->velotax != NULL)
+      if (grafptr->velotax != NULL) {
+        if ((veloval < 0) || (veloval > (INTVALMAX - velosum))) {
+          errorPrint ("graphLoad: invalid vertex load");
+          graphFree  (grafptr);
+          return (1);
+        }
         velosum                  +=
         grafptr->velotax[vertnum] = veloval;
+      }
     }
     if (intLoad (stream, &degrval) != 1) {        /* Read vertex degree */
       errorPrint ("graphLoad: bad input (5)");
@@ -221,12 +235,13 @@ const GraphFlag             flagval)              /* Graph loading flags
       degrmax = degrval;
 
     grafptr->verttax[vertnum] = edgenum;          /* Set index in edge array */
-    degrval += edgenum;
-    if (degrval > edgennd) {                      /* Check if edge array overflows */
+    if ((degrval < 0) ||                          /* Check if edge array overflows */
+        (degrval > (edgennd - edgenum))) {
       errorPrint ("graphLoad: invalid arc count (1)");
       graphFree  (grafptr);
       return (1);
     }
+    degrval += edgenum;
 
     for ( ; edgenum < degrval; edgenum ++) {
       if (proptab[1] != 0) {                      /* If must read edge load        */
@@ -237,15 +252,28 @@ const GraphFlag             flagval)              /* Graph loading flags
           graphFree  (grafptr);
           return (1);
         }
-        if (grafptr->edlotax != NULL)
+        if (grafptr->edlotax != NULL) {
+          if ((edloval < 0) || (edloval > (INTVALMAX - edlosum))) {
+            errorPrint ("graphLoad: invalid edge load");
+            graphFree  (grafptr);
+            return (1);
+          }
           edlosum                  +=
           grafptr->edlotax[edgenum] = (Gnum) edloval;
+        }
       }
       if (intLoad (stream, &edgeval) != 1) {      /* Read edge data */
         errorPrint ("graphLoad: bad input (7)");
         graphFree  (grafptr);
         return (1);
       }
+      if ((grafptr->vlbltax == NULL) &&           /* If edge end is not a label */
+          ((edgeval <  (grafptr->baseval - baseadj)) ||
+           (edgeval >= (grafptr->vertnnd - baseadj)))) {
+        errorPrint ("graphLoad: invalid arc end number");
+        graphFree  (grafptr);
+        return (1);
+      }
       grafptr->edgetax[edgenum] = edgeval + baseadj;
     }
   }
@@ -292,13 +320,19 @@ const Gnum * const          vlbltax)
   Gnum                vertnum;                    /* Number of current vertex        */
   Gnum * restrict     indxtab;                    /* Vertex label/number index table */
 
-  if ((indxtab = (Gnum *) memAlloc ((vlblmax + 1) * sizeof (Gnum))) == NULL) {
+  if ((indxtab = (Gnum *) memAlloc (((size_t) vlblmax + 1) * sizeof (Gnum))) == NULL) {
     errorPrint  ("graphLoad2: out of memory");
     return (1);
   }
 
-  memSet (indxtab, ~0, (vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
+  memSet (indxtab, ~0, ((size_t) vlblmax + 1) * sizeof (Gnum)); /* Assume labels not used */
   for (vertnum = baseval; vertnum < vertnnd; vertnum ++) {
+    if ((vlbltax[vertnum] < 0) ||                 /* If vertex label is invalid */
+        (vlbltax[vertnum] > vlblmax)) {
+      errorPrint  ("graphLoad2: invalid vertex label");
+      memFree     (indxtab);
+      return (1);
+    }
     if (indxtab[vlbltax[vertnum]] != ~0) {        /* If vertex label already used */
       errorPrint  ("graphLoad2: duplicate vertex label");
       memFree     (indxtab);
@@ -310,7 +344,8 @@ const Gnum * const          vlbltax)
     Gnum                edgenum;                  /* Number of current edge */
 
     for (edgenum = verttax[vertnum]; edgenum < vendtax[vertnum]; edgenum ++) {
-      if (edgetax[edgenum] > vlblmax) {           /* If invalid edge end number */
+      if ((edgetax[edgenum] < 0) ||               /* If invalid edge end number */
+          (edgetax[edgenum] > vlblmax)) {
         errorPrint ("graphLoad2: invalid arc end number (1)");
         memFree    (indxtab);
         return (1);
-- 
2.43.0


From cb2d8d752bdc1f9d05e132483f766f53db49dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 137/153] fix: archLoad of weighted complete graphs frees what
 it allocated when it fails

---
 src/libscotch/arch_cmpltw.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 71fbb18..6adcef1 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -229,8 +229,11 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
+  archptr->velotab = NULL;                        /* Nothing to free yet in case of error */
+
   if ((fscanf (stream, "%ld", &vertnbr) != 1) ||
-      (vertnbr < 1)) {
+      (vertnbr < 1)                           ||
+      (vertnbr > (long) ANUMMAX)) {
     errorPrint ("archCmpltwArchLoad: bad input (1)");
     return (1);
   }
@@ -247,10 +250,13 @@ FILE * restrict const       stream)
     if ((fscanf (stream, "%ld", &velotmp) != 1) ||
         (velotmp < 1)) {
       errorPrint ("archCmpltwArchLoad: bad input (2)");
+      memFree    (vecwtab);
       return (1);
     }
     veloval = (Anum) velotmp;
-    if (veloval <= 0) {                           /* Target weights cannot be negative nor null */
+    if ((velotmp > (long) ANUMMAX)        ||
+        (veloval > (ANUMMAX - velosum))   ||
+        (veloval <= 0)) {                           /* Target weights cannot be negative nor null */
       errorPrint ("archCmpltwArchLoad: bad input (3)");
       memFree    (vecwtab);
       return (1);
-- 
2.43.0


From add6c3c32148b2f0524ec8c479f84184af692f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 138/153] fix: archLoad of sub-architectures refuses terminals
 which do not exist

---
 src/libscotch/arch_sub.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index d07ada8..6c30698 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -103,7 +103,8 @@ FILE * restrict const       stream)
   }
 
   for (termnum = 0; termnum < termnbr; termnum ++) {
-    if (intLoad (stream, &termtab[termnum]) != 1) {
+    if ((intLoad (stream, &termtab[termnum]) != 1) ||
+        (termtab[termnum] < 0)) {
       errorPrint ("archSubArchLoad: bad input (2)");
       memFree    (termtab);
       return (1);
@@ -118,7 +119,21 @@ FILE * restrict const       stream)
 
   o = archLoad (orgarchptr, stream);
   if (o == 0) {
-    o = archSubArchBuild (subarchptr, orgarchptr, termnbr, termtab);
+    ArchDom             orgdomndat;
+    Anum                orgtermnbr;
+
+    archDomFrst (orgarchptr, &orgdomndat);        /* Get number of terminal domains in original architecture */
+    orgtermnbr = archDomSize (orgarchptr, &orgdomndat);
+    for (termnum = 0; termnum < termnbr; termnum ++) { /* Check list before using it */
+      if (termtab[termnum] >= orgtermnbr) {
+        errorPrint ("archSubArchLoad: invalid terminal number");
+        o = 1;
+        break;
+      }
+    }
+
+    if (o == 0)
+      o = archSubArchBuild (subarchptr, orgarchptr, termnbr, termtab);
     if (o != 0)
       archExit (orgarchptr);                      /* Architecture already cleaned-up if it could not be loaded */
   }
-- 
2.43.0


From 42fd70d29b4ad3e6aea58e3a6fa7c7b8cbdbbf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 139/153] fix: Chaco graph loading checks header values and the
 number of edges

---
 src/libscotch/graph_io_chac.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/libscotch/graph_io_chac.c b/src/libscotch/graph_io_chac.c
index 53c97ea..32172c3 100644
--- a/src/libscotch/graph_io_chac.c
+++ b/src/libscotch/graph_io_chac.c
@@ -112,7 +112,12 @@ const char * const          dataptr)              /* No use           */
       (sscanf (chalinetab, "%ld%ld%ld",
                &chavertnbr,
                &chaedgenbr,
-               &chaflagval) < 2)) {
+               &chaflagval) < 2)                                  ||
+      (chavertnbr < 0)                                            ||
+      (chavertnbr > (long) (INTVALMAX - 2))                       ||
+      (chaedgenbr < 0)                                            ||
+      (chaedgenbr > (long) ((INTVALMAX - 2) / 2))                 ||
+      (chaflagval < 0)) {
     errorPrint ("graphGeomLoadChac: bad input (1)");
     return     (1);
   }
@@ -143,8 +148,10 @@ const char * const          dataptr)              /* No use           */
       (memAllocGroup ((void **) (void *)
                       &grafptr->edgetax, (size_t) (grafptr->edgenbr * sizeof (Gnum)),
                       &grafptr->edlotax, (size_t) (edlosiz          * sizeof (Gnum)), NULL) == NULL)) {
-    if (grafptr->verttax != NULL)
+    if (grafptr->verttax != NULL) {
       memFree (grafptr->verttax);
+      grafptr->verttax = NULL;                    /* Already freed */
+    }
     errorPrint ("graphGeomLoadChac: out of memory");
     return     (1);
   }
@@ -193,7 +200,8 @@ const char * const          dataptr)              /* No use           */
     }
     if (grafptr->velotax != NULL) {
       if ((intLoad (filesrcptr, &grafptr->velotax[vertnum]) != 1) ||
-          (grafptr->velotax[vertnum] < 1)) {
+          (grafptr->velotax[vertnum] < 1)                         ||
+          (grafptr->velotax[vertnum] > (INTVALMAX - velosum))) {
         errorPrint ("graphGeomLoadChac: bad input (3)");
         graphFree  (grafptr);
         return     (1);
@@ -212,21 +220,23 @@ const char * const          dataptr)              /* No use           */
 
       ungetc (chabuffcar, filesrcptr);            /* Else put character back to stream */
 
+      if (edgenum > grafptr->edgenbr) {           /* Test edge array overflow before writing */
+        errorPrint ("graphGeomLoadChac: bad input (5)");
+        graphFree  (grafptr);
+        return     (1);
+      }
       if ((intLoad (filesrcptr, &chavertnum) != 1) ||
           (chavertnum < 1)                         ||
           (chavertnum > chavertnbr)                ||
           ((grafptr->edlotax != NULL) &&
            ((intLoad (filesrcptr, &grafptr->edlotax[edgenum]) != 1) ||
-            (edlosum += grafptr->edlotax[edgenum], grafptr->edlotax[edgenum] < 1)))) {
+            (grafptr->edlotax[edgenum] < 1)                               ||
+            (grafptr->edlotax[edgenum] > (INTVALMAX - edlosum))           ||
+            (edlosum += grafptr->edlotax[edgenum], 0)))) {
         errorPrint ("graphGeomLoadChac: bad input (4)");
         graphFree  (grafptr);
         return     (1);
       }
-      if (edgenum > (grafptr->edgenbr + 1)) { /* Test edge array overflow */
-        errorPrint ("graphGeomLoadChac: bad input (5)");
-        graphFree  (grafptr);
-        return     (1);
-      }
       grafptr->edgetax[edgenum ++] = chavertnum;
     }
 
@@ -234,6 +244,11 @@ const char * const          dataptr)              /* No use           */
       degrmax = edgenum - grafptr->verttax[vertnum];
   }
   grafptr->verttax[vertnum] = edgenum;            /* Set end of based vertex array */
+  if (edgenum != (grafptr->edgenbr + 1)) {        /* If number of edges is not the announced one */
+    errorPrint ("graphGeomLoadChac: bad input (6)");
+    graphFree  (grafptr);
+    return     (1);
+  }
   grafptr->velosum = velosum;
   grafptr->edlosum = edlosum;
   grafptr->degrmax = degrmax;
-- 
2.43.0


From 4be9eb4d63ae9832597e132e1242b8261fca2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 140/153] fix: MatrixMarket graph loading checks header values

---
 src/libscotch/graph_io_mmkt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_io_mmkt.c b/src/libscotch/graph_io_mmkt.c
index b97460e..ba2588a 100644
--- a/src/libscotch/graph_io_mmkt.c
+++ b/src/libscotch/graph_io_mmkt.c
@@ -137,7 +137,11 @@ const char * const          dataptr)              /* Fake base value  */
 
   if ((intLoad (filesrcptr, &mrownbr) != 1) ||    /* Read number of rows    */
       (intLoad (filesrcptr, &mcolnbr) != 1) ||    /* Read number of columns */
-      (intLoad (filesrcptr, &linenbr) != 1)) {    /* Read number of lines   */
+      (intLoad (filesrcptr, &linenbr) != 1) ||    /* Read number of lines   */
+      (mrownbr < 0)                         ||
+      (linenbr < 0)                         ||
+      (linenbr > ((INTVALMAX - 2) / 2))     ||
+      (mrownbr >= (INTVALMAX - baseval))) {
     errorPrint ("graphGeomLoadMmkt: bad input (3)");
     return     (1);
   }
@@ -165,7 +169,7 @@ const char * const          dataptr)              /* Fake base value  */
   grafptr->vnumtax  = NULL;
   grafptr->vlbltax  = NULL;
 
-  if ((sorttab = (GraphGeomMmktEdge *) memAlloc (2 * linenbr * sizeof (GraphGeomMmktEdge))) == NULL) { /* Twice the space for symmetric edges */
+  if ((sorttab = (GraphGeomMmktEdge *) memAlloc (2 * (size_t) linenbr * sizeof (GraphGeomMmktEdge))) == NULL) { /* Twice the space for symmetric edges */
     errorPrint ("graphGeomLoadMmkt: out of memory (2)");
     graphExit  (grafptr);
     return     (1);
-- 
2.43.0


From 9e608c411a87903b7fdc630df513f6cefaea64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:15 +0000
Subject: [PATCH 141/153] fix: meshLoad refuses malformed mesh files instead of
 accessing memory out of bounds

---
 src/libscotch/mesh_io.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 4a692f6..da85a7a 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -124,6 +124,10 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       (vnodnbr < 0)                              ||
       (velmbas < 0)                              ||
       (vnodbas < 0)                              ||
+      (meshptr->edgenbr < 0)                     ||
+      (vnodnbr >= (INTVALMAX - velmnbr))         || /* If indices cannot be represented */
+      (vnodbas >= (INTVALMAX - vnodnbr))         ||
+      (velmbas >= (INTVALMAX - velmnbr))         ||
       (propval < 0)                              ||
       (propval > 111)                            ||
       (((velmbas + velmnbr) != vnodbas) &&
@@ -145,6 +149,11 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
     meshptr->baseval = baseval;                   /* Set wanted graph base */
     baseadj          = baseval - baseadj;         /* Update base adjust    */
   }
+  if (((velmnbr + vnodnbr) >= (INTVALMAX - meshptr->baseval)) ||
+      (meshptr->edgenbr    >= (INTVALMAX - meshptr->baseval))) {
+    errorPrint ("meshLoad: mesh too large");
+    return     (1);
+  }
   meshptr->flagval = MESHFREEVERT | MESHVERTGROUP; /* Edge array grouped with vertex array */
   meshptr->velmnbr = velmnbr;
   meshptr->velmbas = velmbas + baseadj;
@@ -217,7 +226,9 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       Gnum                degrval;
 
       if (meshptr->vlbltax != NULL) {             /* If must read label */
-        if (intLoad (stream, &vlblval) != 1) {    /* Read label data    */
+        if ((intLoad (stream, &vlblval) != 1) ||  /* Read label data    */
+            (vlblval < 0)                     ||
+            (vlblval >= (INTVALMAX - (vertbas - meshptr->baseval)))) {
           errorPrint ("meshLoad: bad input (3)");
           meshFree   (meshptr);
           return     (1);
@@ -228,7 +239,8 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
       }
       if (proptab[2] != 0) {                      /* If must read vertex load */
         if ((intLoad (stream, &veloval) != 1) ||  /* Read vertex load data    */
-            (veloval < 1)) {
+            (veloval < 1)                     ||
+            (veloval > (INTVALMAX - velosum))) {
           errorPrint ("meshLoad: bad input (4)");
           meshFree   (meshptr);
           return     (1);
@@ -249,12 +261,13 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
         meshptr->veisnbr ++;
 
       meshptr->verttax[vertnum] = edgenum;        /* Set index in edge array */
-      degrval += edgenum;
-      if (degrval > edgennd) {                    /* Check if edge array overflows */
+      if ((degrval < 0) ||                        /* Check if edge array overflows */
+          (degrval > (edgennd - edgenum))) {
         errorPrint ("meshLoad: invalid arc count (1)");
         meshFree   (meshptr);
         return     (1);
       }
+      degrval += edgenum;
 
       for ( ; edgenum < degrval; edgenum ++) {
         if (proptab[1] != 0) {                    /* If must read edge load        */
@@ -269,6 +282,15 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
+        if ((edgeval < 0) ||                      /* If edge end cannot be valid */
+            (edgeval >= (INTVALMAX - edgeadj)) ||
+            ((meshptr->vlbltax == NULL) &&        /* Or is not a label and does not exist */
+             (((edgeval + baseadj) < meshptr->baseval) ||
+              ((edgeval + baseadj) - meshptr->baseval >= (vertnndtab[1 - i] - vertbastab[1 - i]))))) {
+          errorPrint ("meshLoad: invalid arc end number");
+          meshFree   (meshptr);
+          return     (1);
+        }
         meshptr->edgetax[edgenum] = edgeval + edgeadj + baseadj;
       }
     }
-- 
2.43.0


From 1d32294533280b2de708e60cfea58a524d3875ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 142/153] fix: meshes which could not be loaded can be freed

---
 src/libscotch/mesh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/mesh.c b/src/libscotch/mesh.c
index 3ca20db..b50e25e 100644
--- a/src/libscotch/mesh.c
+++ b/src/libscotch/mesh.c
@@ -135,6 +135,7 @@ Mesh * const                meshptr)
 #ifdef SCOTCH_DEBUG_MESH2
   memSet (meshptr, ~0, sizeof (Mesh));            /* Purge mesh fields */
 #endif /* SCOTCH_DEBUG_MESH2 */
+  meshptr->flagval = MESHNONE;                    /* Allow to double-call meshFree or call meshExit */
 }
 
 /* This routine sets the base of the given
-- 
2.43.0


From 16b6df0af07758e327a44c30320e94475e557a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:58 +0000
Subject: [PATCH 143/153] fix: archLoad of tree-leaf architectures refuses
 malformed data cleanly

---
 src/libscotch/arch_tleaf.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/arch_tleaf.c b/src/libscotch/arch_tleaf.c
index da8f8c6..327fff9 100644
--- a/src/libscotch/arch_tleaf.c
+++ b/src/libscotch/arch_tleaf.c
@@ -112,7 +112,12 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  if (intLoad (stream, &archptr->levlnbr) != 1) {
+  archptr->sizetab = NULL;                        /* Nothing to free yet in case of error */
+  archptr->permtab = NULL;                        /* Assume no permutation array          */
+
+  if ((intLoad (stream, &archptr->levlnbr) != 1) ||
+      (archptr->levlnbr < 1)                     ||
+      (archptr->levlnbr > (ANUMMAX / 4))) {
     errorPrint ("archTleafArchLoad: bad input (1)");
     return     (1);
   }
@@ -123,13 +128,13 @@ FILE * restrict const       stream)
   }
   archptr->linktab     = archptr->sizetab + archptr->levlnbr + 1; /* TRICK: One more slot     */
   archptr->linktab[-1] = 0;                       /* Dummy slot for for level-0 communication */
-  archptr->permtab     = NULL;                    /* Assume no permutation array              */
 
   for (levlnum = 0, sizeval = 1; levlnum < archptr->levlnbr; levlnum ++) {
     if ((intLoad (stream, &archptr->sizetab[levlnum]) != 1) ||
         (intLoad (stream, &archptr->linktab[levlnum]) != 1) ||
         (archptr->sizetab[levlnum] < 2)                     ||
-        (archptr->linktab[levlnum] < 1)) {
+        (archptr->linktab[levlnum] < 1)                     ||
+        (archptr->sizetab[levlnum] > (ANUMMAX / sizeval))) { /* If number of terminals cannot be represented */
       errorPrint ("archTleafArchLoad: bad input (2)");
       return (1);
     }
@@ -159,7 +164,8 @@ ArchTleaf * const           archptr)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
-  memFree (archptr->sizetab);                     /* Free group leader */
+  if (archptr->sizetab != NULL)
+    memFree (archptr->sizetab);                   /* Free group leader */
   if (archptr->permtab != NULL)
     memFree (archptr->permtab);                   /* Free group leader */
 
@@ -684,7 +690,8 @@ FILE * restrict const       stream)
     return (1);
 
   if ((intLoad (stream, &archptr->permnbr) != 1) ||
-      (archptr->permnbr <= 0)) {
+      (archptr->permnbr <= 0)                    ||
+      (archptr->permnbr > (ANUMMAX / 2))) {
     errorPrint ("archLtleafArchLoad: bad input (1)");
     return     (1);
   }
@@ -696,7 +703,7 @@ FILE * restrict const       stream)
 
     for (levlnum = archptr->levlnbr - 1, sizeval = archptr->sizetab[levlnum];
          sizeval != archptr->permnbr; levlnum --, sizeval *= archptr->sizetab[levlnum]) {
-      if (levlnum < 0) {
+      if ((levlnum <= 0) || (sizeval > (archptr->permnbr / archptr->sizetab[levlnum - 1]))) { /* If no more levels, or product too large */
         errorPrint ("archLtleafArchLoad: permutation size does not match level boundaries");
         return     (1);
       }
-- 
2.43.0


From f23b05d6fae115b6dc244df20faae9a445d365e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:02 +0000
Subject: [PATCH 144/153] fix: archLoad refuses meshes and hypercubes the size
 of which cannot be represented

---
 src/libscotch/arch_hcub.c |  2 +-
 src/libscotch/arch_mesh.c | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/libscotch/arch_hcub.c b/src/libscotch/arch_hcub.c
index 84e3ea7..1076824 100644
--- a/src/libscotch/arch_hcub.c
+++ b/src/libscotch/arch_hcub.c
@@ -103,7 +103,7 @@ FILE * restrict const       stream)
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
       (archptr->dimnnbr < 0)                     ||
-      (archptr->dimnnbr > (Anum) (sizeof (Anum) << 3))) { /* Should have enough bits in ArchHcubDom bitsset field */
+      (archptr->dimnnbr >= (Anum) ((sizeof (Anum) << 3) - 1))) { /* Number of terminals should be a positive number */
     errorPrint ("archHcubArchLoad: bad input");
     return (1);
   }
diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 6bd54c1..718b837 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -115,7 +115,8 @@ FILE * restrict const       stream)
 
   if ((intLoad (stream, &archptr->c[0]) != 1) ||
       (intLoad (stream, &archptr->c[1]) != 1) ||
-      (archptr->c[0] < 1) || (archptr->c[1] < 1)) {
+      (archptr->c[0] < 1) || (archptr->c[1] < 1) ||
+      (archptr->c[1] > (ANUMMAX / archptr->c[0]))) { /* If number of terminals cannot be represented */
     errorPrint ("archMesh2ArchLoad: bad input");
     return     (1);
   }
@@ -388,7 +389,9 @@ FILE * restrict const       stream)
   if ((intLoad (stream, &archptr->c[0]) != 1) ||
       (intLoad (stream, &archptr->c[1]) != 1) ||
       (intLoad (stream, &archptr->c[2]) != 1) ||
-      (archptr->c[0] < 1) || (archptr->c[1] < 1) || (archptr->c[2] < 1)) {
+      (archptr->c[0] < 1) || (archptr->c[1] < 1) || (archptr->c[2] < 1) ||
+      (archptr->c[1] > (ANUMMAX / archptr->c[0])) || /* If number of terminals cannot be represented */
+      (archptr->c[2] > (ANUMMAX / (archptr->c[0] * archptr->c[1])))) {
     errorPrint ("archMesh3ArchLoad: bad input");
     return     (1);
   }
@@ -622,6 +625,7 @@ ArchMeshX * restrict const  archptr,
 FILE * restrict const       stream)
 {
   Anum                dimnnum;
+  Anum                sizeval;                    /* Number of terminals */
 
 #ifdef SCOTCH_DEBUG_ARCH1
   if ((sizeof (ArchMeshX)    > sizeof (ArchDummy)) ||
@@ -632,17 +636,20 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
+      (archptr->dimnnbr < 1)                     ||
       (archptr->dimnnbr > ARCHMESHDIMNMAX)) {
     errorPrint ("archMeshXArchLoad: bad input (1)");
     return     (1);
   }
 
-  for (dimnnum = 0; dimnnum < archptr->dimnnbr; dimnnum ++) {
+  for (dimnnum = 0, sizeval = 1; dimnnum < archptr->dimnnbr; dimnnum ++) {
     if ((intLoad (stream, &archptr->c[dimnnum]) != 1) ||
-        (archptr->c[dimnnum] < 1)) {
+        (archptr->c[dimnnum] < 1)                     ||
+        (archptr->c[dimnnum] > (ANUMMAX / sizeval))) { /* If number of terminals cannot be represented */
       errorPrint ("archMeshXArchLoad: bad input (2)");
       return     (1);
     }
+    sizeval *= archptr->c[dimnnum];
   }
 
   return (0);
-- 
2.43.0


From 584e248405b000eb7767881374fc2208738c4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 145/153] fix: archLoad of decomposition-defined architectures
 refuses malformed data cleanly

---
 src/libscotch/arch_deco.c  | 19 ++++++++++++++++---
 src/libscotch/arch_deco2.c |  2 ++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/arch_deco.c b/src/libscotch/arch_deco.c
index c048eaf..098b1ba 100644
--- a/src/libscotch/arch_deco.c
+++ b/src/libscotch/arch_deco.c
@@ -235,6 +235,10 @@ FILE * restrict const       stream)
   }
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
+  archptr->flagval    = 0;                        /* Nothing to free yet in case of error */
+  archptr->domverttab = NULL;
+  archptr->domdisttab = NULL;
+
   if ((intLoad (stream, &typeval) != 1) ||        /* Read decomposition type */
       (typeval  < 0)                    ||
       (typeval  > 2)) {
@@ -244,13 +248,18 @@ FILE * restrict const       stream)
 
   if (typeval == 2) {                             /* If type-2 decomposition                      */
     archArch (archptr)->clasptr = archClass2 ("deco", 1); /* Switch class for future routines     */
-    return (archDeco2ArchLoad2 ((ArchDeco2 *) archptr, stream)); /* Call subclass loading routine */
+    if (archDeco2ArchLoad2 ((ArchDeco2 *) archptr, stream) != 0) { /* Call subclass loading routine */
+      memSet (archptr, 0, sizeof (ArchDeco));     /* Sub-class data already freed; nothing to free for main class */
+      return (1);
+    }
+    return (0);
   }
 
   if ((intLoad (stream, &termdomnbr) != 1) ||     /* Proceed with type-0 and type-1 architectures */
       (intLoad (stream, &termdommax) != 1) ||
       (termdommax < termdomnbr)            ||
-      (termdomnbr < 1)) {
+      (termdomnbr < 1)                     ||
+      (termdommax > (INTVALMAX / termdommax))) {  /* Size of distance matrix should be representable */
     errorPrint ("archDecoArchLoad: bad input (2)");
     return     (1);
   }
@@ -294,7 +303,11 @@ FILE * restrict const       stream)
       termdisttab[i] = (Anum) termdistval;
     }
 
-    archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab);
+    if (archDecoArchBuild2 (archptr, termdomnbr, termdommax, termverttab, termdisttab) != 0) {
+      errorPrint ("archDecoArchLoad: cannot build decomposition");
+      memFree    (termverttab);                   /* Free group leader */
+      return     (1);
+    }
 
     memFree (termverttab);                        /* Free group leader */
   }
diff --git a/src/libscotch/arch_deco2.c b/src/libscotch/arch_deco2.c
index 46a69a0..b8c5ea3 100644
--- a/src/libscotch/arch_deco2.c
+++ b/src/libscotch/arch_deco2.c
@@ -138,6 +138,8 @@ FILE * restrict const       stream)
       (intLoad (stream, &archptr->levlmax) != 1) || /* Read levlnbr, not lvlmax */
       (intLoad (stream, &archptr->vnumnbr) != 1) ||
       (archptr->termnbr < 1) ||
+      (archptr->termnbr > (ANUMMAX / 2)) ||       /* Number of domains should be representable */
+      (archptr->vnumnbr < 0) ||
       (archptr->levlmax <= 0)) {
     errorPrint ("archDeco2ArchLoad2: bad input (1)");
     return     (1);
-- 
2.43.0


From 2896297b01a045467269a30c33afc09bbc8a3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 146/153] fix: graphGeomLoadScot refuses geometry files with
 too many coordinates

---
 src/libscotch/graph_io_scot.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index d960417..9949fd6 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -101,7 +101,8 @@ const char * const          dataptr)              /* No use           */
   if ((intLoad (filegeoptr, &dimnnbr) != 1) ||    /* Read type and number of geometry items */
       (intLoad (filegeoptr, &coornbr) != 1) ||
       (dimnnbr < 1)                         ||
-      (dimnnbr > 3)) {
+      (dimnnbr > 3)                         ||
+      (coornbr > (INTVALMAX / 3))) {              /* Indices in coordinate array should be representable */
     errorPrint ("graphGeomLoadScot: bad input (1)");
     return     (1);
   }
@@ -116,13 +117,13 @@ const char * const          dataptr)              /* No use           */
   geomExit (geomptr);                             /* Discard former geometry, if any */
   geomptr->dimnnbr = (int) dimnnbr;
 
-  if ((geomptr->geomtab = (double *) memAlloc (grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL) {
+  if ((geomptr->geomtab = (double *) memAlloc ((size_t) grafptr->vertnbr * dimnnbr * sizeof (double))) == NULL) {
     errorPrint ("graphGeomLoadScot: out of memory (1)");
     return     (1);
   }
 
   if (memAllocGroup ((void **)
-                     &coorfileptr, (size_t) (coornbr * dimnnbr * sizeof (double)),
+                     &coorfileptr, ((size_t) coornbr * dimnnbr * sizeof (double)),
                      &coorsorttab, (size_t) (coornbr           * sizeof (GraphGeomScotSort)),
                      &vertsorttab, (size_t) (grafptr->vertnbr  * sizeof (GraphGeomScotSort)), NULL) == NULL) {
     errorPrint ("graphGeomLoadScot: out of memory (2)");
-- 
2.43.0


From e390a9f0e522672fda05c386ebe1477328f566b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 147/153] fix: graphTabLoad ignores labels below base value
 without overflow

---
 src/libscotch/library_graph_map_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_map_io.c b/src/libscotch/library_graph_map_io.c
index 6d07453..685b6cc 100644
--- a/src/libscotch/library_graph_map_io.c
+++ b/src/libscotch/library_graph_map_io.c
@@ -177,8 +177,10 @@ end: ;
     for (mappfilenum = 0; mappfilenum < mappfilenbr; mappfilenum ++) { /* For all mapping pairs     */
       Gnum                vertnum;                /* Vertex index to which mapping label is applied */
 
+      if (mappsorttab[mappfilenum].labl < baseval) /* Avoid overflow on very small labels */
+        continue;
       vertnum = mappsorttab[mappfilenum].labl - baseval;
-      if ((vertnum >= 0) && (vertnum < vertnbr))  /* If valid vertex label */
+      if (vertnum < vertnbr)                      /* If valid vertex label */
         ((Anum *) parttab)[vertnum] = (Anum) mappsorttab[mappfilenum].num;
     }
   }
-- 
2.43.0


From a342f78e057d136435f3fc7956dac4b308136a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:10 +0000
Subject: [PATCH 148/153] fix: archLoad of sub-architectures refuses duplicate
 terminals

---
 src/libscotch/arch_sub.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/libscotch/arch_sub.c b/src/libscotch/arch_sub.c
index 6c30698..6d2584e 100644
--- a/src/libscotch/arch_sub.c
+++ b/src/libscotch/arch_sub.c
@@ -132,6 +132,27 @@ FILE * restrict const       stream)
       }
     }
 
+    if (o == 0) {                                 /* Check that all terminals are different */
+      Anum *              sorttab;
+
+      if ((sorttab = memAlloc (termnbr * sizeof (Anum))) == NULL) {
+        errorPrint ("archSubArchLoad: out of memory (3)");
+        o = 1;
+      }
+      else {
+        memCpy (sorttab, termtab, termnbr * sizeof (Anum)); /* Keep order of terminals in original list */
+        intSort1asc1 (sorttab, termnbr);
+        for (termnum = 1; termnum < termnbr; termnum ++) {
+          if (sorttab[termnum] == sorttab[termnum - 1]) {
+            errorPrint ("archSubArchLoad: duplicate terminal number");
+            o = 1;
+            break;
+          }
+        }
+        memFree (sorttab);
+      }
+    }
+
     if (o == 0)
       o = archSubArchBuild (subarchptr, orgarchptr, termnbr, termtab);
     if (o != 0)
-- 
2.43.0


From 2dfa51f73f3e72e112ecb19500d74d44cb5a6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:09 +0000
Subject: [PATCH 149/153] fix: the debugging check of archMeshXMatchMate does
 not overflow

---
 src/libscotch/arch_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 718b837..ebb7a21 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -825,7 +825,7 @@ ArchCoarsenMulti ** restrict const  multptr)
   }
 
 #ifdef SCOTCH_DEBUG_ARCH2
-  if (coarvertnum * indxnbr != finevertnbr * ((indxnbr + 1) >> 1)) {
+  if (((size_t) coarvertnum * (size_t) indxnbr) != ((size_t) finevertnbr * (size_t) ((indxnbr + 1) >> 1))) {
     errorPrint ("archMeshXMatchMate: internal error");
     return     (-1);
   }
-- 
2.43.0


From 539c59eaa3467a51c280d5cbbda32c3126f6b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:23 +0000
Subject: [PATCH 150/153] fix: scotchfstratgraphorderbuild does not exchange
 the flags and the number of levels

---
 src/libscotch/library_graph_order_f.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_order_f.c b/src/libscotch/library_graph_order_f.c
index a21fce8..29ff1ca 100644
--- a/src/libscotch/library_graph_order_f.c
+++ b/src/libscotch/library_graph_order_f.c
@@ -337,5 +337,5 @@ const double * const        kbalval,          \
 int * const                 revaptr),         \
 (straptr, flagval, levlnbr, kbalval, revaptr))
 {
-  *revaptr = SCOTCH_stratGraphOrderBuild (straptr, *levlnbr, *flagval, *kbalval);
+  *revaptr = SCOTCH_stratGraphOrderBuild (straptr, *flagval, *levlnbr, *kbalval);
 }
-- 
2.43.0


From 86648eb45fc23be010fd6da3120b9d5e7c29a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:44 +0000
Subject: [PATCH 151/153] fix: the Fortran routines which induce graphs take
 their arguments by reference

---
 src/libscotch/library_graph_induce_f.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/library_graph_induce_f.c b/src/libscotch/library_graph_induce_f.c
index 60f12c3..2bbc666 100644
--- a/src/libscotch/library_graph_induce_f.c
+++ b/src/libscotch/library_graph_induce_f.c
@@ -68,13 +68,13 @@
 SCOTCH_FORTRAN (                              \
 GRAPHINDUCELIST, graphinducelist, (           \
 SCOTCH_Graph * restrict const     orggrafptr, \
-const SCOTCH_Num                  vnumnbr,    \
+const SCOTCH_Num * const          vnumptr,    \
 const SCOTCH_Num * restrict const vnumtab,    \
 SCOTCH_Graph * restrict const     indgrafptr, \
 int * const                       revaptr),   \
-(orggrafptr, vnumnbr, vnumtab, indgrafptr, revaptr))
+(orggrafptr, vnumptr, vnumtab, indgrafptr, revaptr))
 {
-  *revaptr = SCOTCH_graphInduceList (orggrafptr, vnumnbr, vnumtab, indgrafptr);
+  *revaptr = SCOTCH_graphInduceList (orggrafptr, *vnumptr, vnumtab, indgrafptr);
 }
 
 /*
@@ -84,12 +84,12 @@ int * const                       revaptr),   \
 SCOTCH_FORTRAN (                                      \
 GRAPHINDUCEPART, graphinducepart, (                   \
 SCOTCH_Graph * restrict const             orggrafptr, \
-const SCOTCH_Num                          vnumnbr,    \
+const SCOTCH_Num * const                  vnumptr,    \
 const SCOTCH_GraphPart2 * restrict const  parttab,    \
-const SCOTCH_GraphPart2                   partval,    \
+const SCOTCH_GraphPart2 * const           partptr,    \
 SCOTCH_Graph * restrict const             indgrafptr, \
 int * const                               revaptr),   \
-(orggrafptr, vnumnbr, parttab, partval, indgrafptr, revaptr))
+(orggrafptr, vnumptr, parttab, partptr, indgrafptr, revaptr))
 {
-  *revaptr = SCOTCH_graphInducePart (orggrafptr, vnumnbr, parttab, partval, indgrafptr);
+  *revaptr = SCOTCH_graphInducePart (orggrafptr, *vnumptr, parttab, *partptr, indgrafptr);
 }
-- 
2.43.0


From 7dcd3f555d0fa7230bb8822a32ed9c7103d3ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:44 +0000
Subject: [PATCH 152/153] fix: the CMake build provides the Fortran routines
 which induce graphs

---
 src/libscotch/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/CMakeLists.txt b/src/libscotch/CMakeLists.txt
index 806c641..be013b1 100644
--- a/src/libscotch/CMakeLists.txt
+++ b/src/libscotch/CMakeLists.txt
@@ -246,6 +246,7 @@ set(SCOTCH_C_SOURCES
   graph_diam.c
   graph_ielo.c
   library_graph_induce.c
+  library_graph_induce_f.c
   graph_induce.c
   graph_induce.h
   graph_io.c
-- 
2.43.0


From ce737dbf9cd8a23e572d059935359ba64c40c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 153/153] fix: meshLoad accepts labels which are negative
 before they are based

---
 src/libscotch/mesh_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index da85a7a..010f106 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -227,7 +227,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
 
       if (meshptr->vlbltax != NULL) {             /* If must read label */
         if ((intLoad (stream, &vlblval) != 1) ||  /* Read label data    */
-            (vlblval < 0)                     ||
+            (vlblval <  (meshptr->baseval - vertbas)) || /* If based label is negative or cannot be represented */
             (vlblval >= (INTVALMAX - (vertbas - meshptr->baseval)))) {
           errorPrint ("meshLoad: bad input (3)");
           meshFree   (meshptr);
@@ -282,7 +282,7 @@ const Gnum                  baseval)              /* Base value (-1 means keep f
           meshFree   (meshptr);
           return     (1);
         }
-        if ((edgeval < 0) ||                      /* If edge end cannot be valid */
+        if ((edgeval < (- edgeadj))        ||     /* If edge end cannot be valid */
             (edgeval >= (INTVALMAX - edgeadj)) ||
             ((meshptr->vlbltax == NULL) &&        /* Or is not a label and does not exist */
              (((edgeval + baseadj) < meshptr->baseval) ||
-- 
2.43.0

