From 348d52a1cfa3628ee348115ee7d527ee87150d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:03 +0000
Subject: [PATCH 01/58] fix: print vertex labels with the format of graph
 numbers

---
 src/libscotch/graph_io_scot.c | 4 ++--
 src/libscotch/mesh_io_scot.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index a0f385d..7ce49fa 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -189,8 +189,8 @@ const char * const          dataptr)              /* No use           */
     while ((coornum < coornbr) && (coorsorttab[coornum].labl < vertsorttab[vertnum].labl))
       coornum ++;                                 /* Search geometry vertex with same label                           */
     if ((coornum >= coornbr) || (coorsorttab[coornum].labl > vertsorttab[vertnum].labl)) { /* If label does not exist */
-      errorPrint ("graphGeomLoadScot: vertex geometry data not found (%d)",
-                  vertsorttab[vertnum].labl);
+      errorPrint ("graphGeomLoadScot: vertex geometry data not found (" GNUMSTRING ")",
+                  (Gnum) vertsorttab[vertnum].labl);
       memFree    (coorfiletab);                   /* Free group leader */
       return     (1);
     }
diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index 0a42b0a..a679858 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -185,8 +185,8 @@ const char * const          dataptr)              /* No use           */
     while ((coornum < coornbr) && (coorsorttab[coornum].labl < vnodsorttab[vnodnum].labl))
       coornum ++;                                 /* Search geometry vertex with same label                           */
     if ((coornum >= coornbr) || (coorsorttab[coornum].labl > vnodsorttab[vnodnum].labl)) { /* If label does not exist */
-      errorPrint ("meshGeomLoadScot: vertex geometry data not found (%d)",
-                  vnodsorttab[vnodnum].labl);
+      errorPrint ("meshGeomLoadScot: vertex geometry data not found (" GNUMSTRING ")",
+                  (Gnum) vnodsorttab[vnodnum].labl);
       memFree    (coorfiletab);                   /* Free group leader */
       return     (1);
     }
-- 
2.43.0


From 61017c71a4601fcbbf78680ad2087e8b02445671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:03 +0000
Subject: [PATCH 02/58] fix: keep the number of induced vertices a graph number
 in wgraphPartRb2

---
 src/libscotch/wgraph_part_rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/wgraph_part_rb.c b/src/libscotch/wgraph_part_rb.c
index 42e886f..b900028 100644
--- a/src/libscotch/wgraph_part_rb.c
+++ b/src/libscotch/wgraph_part_rb.c
@@ -290,7 +290,7 @@ const WgraphPartRbSplit * const spltptr)
   const Gnum                        orgfronnbr = spltptr->fronnbr; /* Number of frontier vertices                          */
   const GraphPart * restrict const  orgparttax = spltptr->parttax; /* Part array of original graph to consider             */
   const GraphPart                   indpartval = (GraphPart) spltnum; /* Part of graph to consider                         */
-  const int                         indvertnbr = spltptr->splttab[spltnum].vertnbr; /* Number of vertices in part or graph */
+  const Gnum                        indvertnbr = spltptr->splttab[spltnum].vertnbr; /* Number of vertices in part or graph */
   const Anum                        inddomnnum = spltptr->splttab[spltnum].domnnum; /* Initial domain number to map        */
   const Anum                        inddomnsiz = spltptr->splttab[spltnum].domnsiz; /* Number of domains to map            */
 
-- 
2.43.0


From 534d34aee3c8ffd60036371184faa6d2c34ee429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:26 +0000
Subject: [PATCH 03/58] fix: the maximum degree is an integer in strategy
 conditions

---
 src/libscotch/hdgraph_order_st.c | 2 +-
 src/libscotch/hgraph_order_st.c  | 2 +-
 src/libscotch/hmesh_order_st.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/hdgraph_order_st.c b/src/libscotch/hdgraph_order_st.c
index e481b28..eebd06b 100644
--- a/src/libscotch/hdgraph_order_st.c
+++ b/src/libscotch/hdgraph_order_st.c
@@ -128,7 +128,7 @@ static StratParamTab        hdgraphorderstcondtab[] = { /* Graph condition param
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.veloglbsum,
                                 NULL },
-                              { STRATNODECOND,         STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,         STRATPARAMINT,    "mdeg",
                                 (byte *) &hdgraphorderstgraphdummy,
                                 (byte *) &hdgraphorderstgraphdummy.s.degrglbmax,
                                 NULL },
diff --git a/src/libscotch/hgraph_order_st.c b/src/libscotch/hgraph_order_st.c
index 146d3c9..1692ca6 100644
--- a/src/libscotch/hgraph_order_st.c
+++ b/src/libscotch/hgraph_order_st.c
@@ -228,7 +228,7 @@ static StratParamTab        hgraphorderstcondtab[] = { /* Graph condition parame
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.vnlosum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hgraphorderstgraphdummy,
                                 (byte *) &hgraphorderstgraphdummy.s.degrmax,
                                 NULL },
diff --git a/src/libscotch/hmesh_order_st.c b/src/libscotch/hmesh_order_st.c
index b7dd2db..906491c 100644
--- a/src/libscotch/hmesh_order_st.c
+++ b/src/libscotch/hmesh_order_st.c
@@ -204,7 +204,7 @@ static StratParamTab        hmeshorderstcondtab[] = { /* Mesh condition paramete
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.vnhlsum,
                                 NULL },
-                              { STRATNODECOND,        STRATPARAMDOUBLE, "mdeg",
+                              { STRATNODECOND,        STRATPARAMINT,    "mdeg",
                                 (byte *) &hmeshorderstmeshdummy,
                                 (byte *) &hmeshorderstmeshdummy.m.degrmax,
                                 NULL },
-- 
2.43.0


From 34481c4f15f6215aba5d86808e6ea02c52352e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:53 +0000
Subject: [PATCH 04/58] fix: report to the caller instead of printing on stderr
 or exiting in the library

---
 src/libscotch/mesh_coarsen.c      | 1 -
 src/libscotch/vmesh_separate_fm.c | 8 ++++----
 src/libscotch/wgraph_part_fm.c    | 2 --
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/mesh_coarsen.c b/src/libscotch/mesh_coarsen.c
index 64a14c4..d01d265 100644
--- a/src/libscotch/mesh_coarsen.c
+++ b/src/libscotch/mesh_coarsen.c
@@ -428,7 +428,6 @@ Context * restrict const          contptr)
           finecoartax[finevelmnum] = coarvelmnum;
           finemulttax[coarvelmnum].finevelmnum[0] =
           finemulttax[coarvelmnum].finevelmnum[1] = finevelmnum;
-fprintf (stderr, "++ %ld %ld\n", (long) finevelmnum, (long) finemeshptr->velotax[finevelmnum]); /* TODO REMOVE */
           coarvelmnum ++;                         /* One more single vertex created */
         }
         continue;
diff --git a/src/libscotch/vmesh_separate_fm.c b/src/libscotch/vmesh_separate_fm.c
index 60f6447..a581613 100644
--- a/src/libscotch/vmesh_separate_fm.c
+++ b/src/libscotch/vmesh_separate_fm.c
@@ -110,6 +110,10 @@ const Gnum                                hashold) /*+ Maximum number of vertice
   VmeshSeparateFmSave * restrict    savetab;
   Gnum                              savenum;
 
+/* TODO: hertnum would no longer be valid */
+  errorPrint ("vmeshSeparateFmResize: hash tables cannot be resized");
+  return     (1);
+
   hashmax = 2 * hashold;                          /* Set new number */
   hashsiz = 4 * hashmax;                          /* Set new size   */
   hashmsk = hashsiz - 1;
@@ -151,10 +155,6 @@ const Gnum                                hashold) /*+ Maximum number of vertice
     hnodtab[hnodnew] = hnodtld[hnodold];          /* Move node data to new position */
   }
 
-/* TODO */
-  fprintf (stderr, "hertnum no longer valid !\n");
-  exit    (1);
-
   addradj = (byte *) helmtab - (byte *) (*helmptr); /* Compute address difference */
 
   gainTablFree (tablptr);                         /* Reset gain table */
diff --git a/src/libscotch/wgraph_part_fm.c b/src/libscotch/wgraph_part_fm.c
index 9cbc68a..c3ab0c6 100644
--- a/src/libscotch/wgraph_part_fm.c
+++ b/src/libscotch/wgraph_part_fm.c
@@ -853,8 +853,6 @@ const WgraphPartFmParam * const paraptr)    /*+ Method parameters +*/
           cplosum += nplstab[partend].loadgainval; /* Update sum of part loads */
         }
         else {
-          if (savedat.savenbr >= savedat.savesiz)
-            fprintf (stderr, "OUCH\n");
           savedat.savetab[savedat.savenbr].u.loaddat.loadval = frlosum;
           savedat.savetab[savedat.savenbr].u.loaddat.sizeval = fronnbr;
           frlosum += nplstab[partend].loadgainval;
-- 
2.43.0


From 8b356884f4b866a3c00f81765e08e6b328cde547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:38 +0000
Subject: [PATCH 05/58] fix: pass the flag and level number in order in the
 Fortran ordering strategy builder

---
 src/libscotch/library_graph_order_f.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_graph_order_f.c b/src/libscotch/library_graph_order_f.c
index a21fce8..29ff1ca 100644
--- a/src/libscotch/library_graph_order_f.c
+++ b/src/libscotch/library_graph_order_f.c
@@ -337,5 +337,5 @@ const double * const        kbalval,          \
 int * const                 revaptr),         \
 (straptr, flagval, levlnbr, kbalval, revaptr))
 {
-  *revaptr = SCOTCH_stratGraphOrderBuild (straptr, *levlnbr, *flagval, *kbalval);
+  *revaptr = SCOTCH_stratGraphOrderBuild (straptr, *flagval, *levlnbr, *kbalval);
 }
-- 
2.43.0


From f746a8d3681b3301da56cd0c87652189a8e9456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:08 +0000
Subject: [PATCH 06/58] fix: return the error code of the Fortran distributed
 mapping statistics, as documented

---
 src/libscotch/library_dgraph_map_stat_f.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/library_dgraph_map_stat_f.c b/src/libscotch/library_dgraph_map_stat_f.c
index bb844c0..ca31f28 100644
--- a/src/libscotch/library_dgraph_map_stat_f.c
+++ b/src/libscotch/library_dgraph_map_stat_f.c
@@ -81,16 +81,17 @@ SCOTCH_Num * const            cdstmaxptr,   \
 SCOTCH_Num                    cdsttab[256], \
 SCOTCH_Num * const            cmlosumptr,   \
 SCOTCH_Num * const            cmdisumptr,   \
-SCOTCH_Num * const            cmexsumptr),  \
+SCOTCH_Num * const            cmexsumptr,   \
+int * const                   revaptr),     \
 (grafptr, mapptr, tgtnbrptr,                \
  mapnbrptr, mapminptr, mapmaxptr,           \
  mapavgptr, mapdltptr,		            \
  ngbsumptr, ngbminptr, ngbmaxptr,           \
- cdstmaxptr, cdsttab, cmlosumptr, cmdisumptr, cmexsumptr))
+ cdstmaxptr, cdsttab, cmlosumptr, cmdisumptr, cmexsumptr, revaptr))
 {
-  SCOTCH_dgraphMapStat (grafptr, mapptr, tgtnbrptr,
-                        mapnbrptr, mapminptr, mapmaxptr, mapavgptr, mapdltptr,
-                        ngbsumptr, ngbminptr, ngbmaxptr,
-                        cdstmaxptr, cdsttab,
-                        cmlosumptr, cmdisumptr, cmexsumptr);
+  *revaptr = SCOTCH_dgraphMapStat (grafptr, mapptr, tgtnbrptr,
+                                   mapnbrptr, mapminptr, mapmaxptr, mapavgptr, mapdltptr,
+                                   ngbsumptr, ngbminptr, ngbmaxptr,
+                                   cdstmaxptr, cdsttab,
+                                   cmlosumptr, cmdisumptr, cmexsumptr);
 }
-- 
2.43.0


From 9f214ffc960ff58ab5978f4c22ce6f03c233f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:04 +0000
Subject: [PATCH 07/58] fix: meshSave writes the loads of elements and nodes
 from their own arrays

---
 src/libscotch/mesh_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/mesh_io.c b/src/libscotch/mesh_io.c
index 2a916a2..bf6ee86 100644
--- a/src/libscotch/mesh_io.c
+++ b/src/libscotch/mesh_io.c
@@ -353,7 +353,7 @@ FILE * restrict const       stream)
     velotabtab[0] = meshptr->velotax;
     edgeadjtab[0] = meshptr->vnodbas - meshptr->baseval;
     vertbastab[1] = meshptr->vnodbas;
-    velotabtab[0] = meshptr->vnlotax;
+    velotabtab[1] = meshptr->vnlotax;
     edgeadjtab[1] = meshptr->velmbas - meshptr->baseval;
   }
   else {
-- 
2.43.0


From 1477c09682f50f443732b1d40e9dcf43e1712919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:19 +0000
Subject: [PATCH 08/58] fix: geometry loaders record the dimension of what they
 load

---
 src/libscotch/graph_io_scot.c | 1 +
 src/libscotch/mesh_io_scot.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libscotch/graph_io_scot.c b/src/libscotch/graph_io_scot.c
index 7ce49fa..bbe2d94 100644
--- a/src/libscotch/graph_io_scot.c
+++ b/src/libscotch/graph_io_scot.c
@@ -118,6 +118,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("graphGeomLoadScot: out of memory (1)");
     return     (1);
   }
+  geomptr->dimnnbr = (int) dimnnbr;               /* Record dimension of loaded geometry */
 
   if (memAllocGroup ((void **)
                      &coorfileptr, (size_t) (coornbr * dimnnbr * sizeof (double)),
diff --git a/src/libscotch/mesh_io_scot.c b/src/libscotch/mesh_io_scot.c
index a679858..ea7d0b8 100644
--- a/src/libscotch/mesh_io_scot.c
+++ b/src/libscotch/mesh_io_scot.c
@@ -116,6 +116,7 @@ const char * const          dataptr)              /* No use           */
     errorPrint ("meshGeomLoadScot: out of memory (1)");
     return     (1);
   }
+  geomptr->dimnnbr = (int) dimnnbr;               /* Record dimension of loaded geometry */
 
   if (memAllocGroup ((void **)
                      &coorfiletab, (size_t) (coornbr * dimnnbr * sizeof (double)),
-- 
2.43.0


From 423b92e1f1285a66fc07a1f4bef50193cc1de2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:52 +0000
Subject: [PATCH 09/58] fix: orderLoad checks the size and range of the loaded
 ordering

---
 src/libscotch/order_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/order_io.c b/src/libscotch/order_io.c
index 0a98d2c..fb5ac14 100644
--- a/src/libscotch/order_io.c
+++ b/src/libscotch/order_io.c
@@ -81,6 +81,7 @@ const Gnum * restrict const vlbltax,
 FILE * restrict const       stream)
 {
   Gnum * restrict     permtab;
+  Gnum                vertnbr;
   Gnum                vertnum;
 
   if (vlbltax != NULL) {
@@ -93,7 +94,8 @@ FILE * restrict const       stream)
     return     (1);
   }
 
-  if (intLoad (stream, &ordeptr->vnodnbr) != 1) {
+  if ((intLoad (stream, &vertnbr) != 1) ||
+      (vertnbr != ordeptr->vnodnbr)) {            /* Ordering must be of the same graph */
     errorPrint ("orderLoad: bad input (1)");
     memFree    (permtab);
     return     (1);
@@ -109,7 +111,9 @@ FILE * restrict const       stream)
         memFree    (permtab);
         return     (1);
       }
-      if (vertval != (vertnum + ordeptr->baseval)) { /* Read item data */
+      if ((vertval != (vertnum + ordeptr->baseval)) || /* Check item data */
+          (permtab[vertnum] <  ordeptr->baseval)    ||
+          (permtab[vertnum] >= ordeptr->baseval + ordeptr->vnodnbr)) {
         errorPrint ("orderLoad: bad input (3)");
         memFree    (permtab);
         return     (1);
-- 
2.43.0


From 9ee1e8b9cbe01bf222b1538f5578e2a2d19fe8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:26 +0000
Subject: [PATCH 10/58] fix: strategy parser refuses a strategy as the value of
 a parameter of another type

---
 src/libscotch/parser_yy.y | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index a9b236d..aa7f6cd 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -481,6 +481,14 @@ PARAMVAL      : VALCASE
                 penvptr->straptr = ($<SAVE>1).strat; /* Restore current method    */
                 penvptr->paraptr = ($<SAVE>1).param; /* Restore current parameter */
 
+                if ((penvptr->paraptr->typeval & ~STRATPARAMDEPRECATED) != STRATPARAMSTRAT) { /* If parameter is not a strategy */
+                  errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
+                              (@2).libenum, (@2).cobenum, (@2).tebeptr);
+                  stratExit  ($2);
+                  YYABORT;
+                }
+
                 if ((penvptr->paraptr->typeval & STRATPARAMDEPRECATED) == 0) { /* If parameter is not deprecated */
 #ifdef SCOTCH_DEBUG_PARSER2
                   if (((penvptr->paraptr->doffptr - penvptr->paraptr->dbasptr) + sizeof (Strat *)) > sizeof (StratNodeMethodData)) {
-- 
2.43.0


From 87eb5eef5fe04cc880b21f070c13f50617713267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:26 +0000
Subject: [PATCH 11/58] fix: strategy parser does not crash on an error within
 a sub-strategy

---
 src/libscotch/parser_yy.y | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/parser_yy.y b/src/libscotch/parser_yy.y
index aa7f6cd..8b6d139 100644
--- a/src/libscotch/parser_yy.y
+++ b/src/libscotch/parser_yy.y
@@ -503,9 +503,10 @@ PARAMVAL      : VALCASE
               }
               | error
               {
-                errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
-                            penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
-                            (@1).libenum, (@1).cobenum, (@1).tebeptr);
+                if ((penvptr->straptr != NULL) && (penvptr->paraptr != NULL)) /* If not within a sub-strategy */
+                  errorPrint ("stratParserParse: invalid value for parameter \"%s\" of method \"%s\", line %d, column %d, before \"%s\"",
+                              penvptr->paraptr->nameptr, penvptr->straptr->tablptr->methtab[penvptr->straptr->data.methdat.methnum].nameptr,
+                              (@1).libenum, (@1).cobenum, (@1).tebeptr);
                 YYABORT;
               }
               ;
-- 
2.43.0


From b625ce0816fe50c9cbbc7dc87f05dd21f730cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:35 +0000
Subject: [PATCH 12/58] fix: MPI datatype of sub-architecture domains has the
 size of the domains

---
 src/libscotch/arch_sub_mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/arch_sub_mpi.c b/src/libscotch/arch_sub_mpi.c
index e0fb7eb..1d50d42 100644
--- a/src/libscotch/arch_sub_mpi.c
+++ b/src/libscotch/arch_sub_mpi.c
@@ -75,5 +75,5 @@ archSubDomMpiType (
 const ArchSub * const         archptr,
 MPI_Datatype * const          typeptr)
 {
-  return (archDomMpiTypeAnum (2, typeptr));
+  return (archDomMpiTypeAnum (1, typeptr));
 }
-- 
2.43.0


From 10bee93e0bec0b5f92502ffc7af310b09919857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 13/58] fix: strategy conditions report a modulo by zero
 instead of trapping

---
 src/libscotch/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libscotch/parser.c b/src/libscotch/parser.c
index f7df8cc..8d846f6 100644
--- a/src/libscotch/parser.c
+++ b/src/libscotch/parser.c
@@ -424,6 +424,10 @@ const void * restrict const       dataptr)        /*+ Pointer to data structure
         break;
       if (testtab[0].nodeval == STRATPARAMDOUBLE)
         evalptr->data.val.valdbl = fmod (testtab[0].data.val.valdbl, testtab[1].data.val.valdbl);
+      else if (testtab[1].data.val.valint == 0) { /* If modulus is undefined */
+        errorPrint ("stratTestEval: modulo by zero");
+        return (1);
+      }
       else
         evalptr->data.val.valint = testtab[0].data.val.valint % testtab[1].data.val.valint;
       evalptr->nodeval = testtab[0].nodeval;
-- 
2.43.0


From f13df97707c946d0ec31955ed1b8218fc98797a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 14/58] fix: bgraphBipartFm returns when its tables cannot be
 resized

---
 src/libscotch/bgraph_bipart_fm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/bgraph_bipart_fm.c b/src/libscotch/bgraph_bipart_fm.c
index 170286c..e34b598 100644
--- a/src/libscotch/bgraph_bipart_fm.c
+++ b/src/libscotch/bgraph_bipart_fm.c
@@ -600,6 +600,7 @@ const BgraphBipartFmParam * const paraptr)        /*+ Method parameters +*/
                 errorPrint ("bgraphBipartFm: out of memory (2)");
                 memFree    (hashtab);             /* Free group leader */
                 bgraphBipartFmTablExit (tablptr);
+                return     (1);
               }
               for (hashnum = (vertend * BGRAPHBIPARTFMHASHPRIME) & hashmsk; hashtab[hashnum].vertnum != ~0; hashnum = (hashnum + 1) & hashmsk) ; /* Search for new first free slot */
             }
-- 
2.43.0


From c623bd24d986d46d0a9c8a4a1663026ae25e0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 15/58] fix: distributed diffusion methods stop on all
 processes when one lacks memory

---
 src/libscotch/bdgraph_bipart_df.c   | 19 +++++++++++--------
 src/libscotch/vdgraph_separate_df.c | 14 ++++++++------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/libscotch/bdgraph_bipart_df.c b/src/libscotch/bdgraph_bipart_df.c
index 82fe69d..b258212 100644
--- a/src/libscotch/bdgraph_bipart_df.c
+++ b/src/libscotch/bdgraph_bipart_df.c
@@ -128,20 +128,23 @@ const BdgraphBipartDfParam * const  paraptr)      /*+ Method parameters +*/
                      &difogsttax, (size_t) (grafptr->s.vertgstnbr * sizeof (float)),
                      &difngsttax, (size_t) (grafptr->s.vertgstnbr * sizeof (float)), NULL) == NULL) {
     errorPrint ("bdgraphBipartDf: out of memory");
-    reduloctab[0] = -1;
+    reduloctab[4] = 1;
+  }
+  else {
+    reduloctab[4] = 0;
+    ielsloctax -= grafptr->s.baseval;
+    difogsttax -= grafptr->s.baseval;
+    difngsttax -= grafptr->s.baseval;
+    veexloctax  = (grafptr->veexloctax != NULL) ? (veexloctax - grafptr->s.baseval) : NULL;
   }
-  ielsloctax -= grafptr->s.baseval;
-  difogsttax -= grafptr->s.baseval;
-  difngsttax -= grafptr->s.baseval;
-  veexloctax  = (grafptr->veexloctax != NULL) ? (veexloctax - grafptr->s.baseval) : NULL;
 
-  if (MPI_Allreduce (reduloctab, reduglbtab, 4, GNUM_MPI, MPI_SUM, grafptr->s.proccomm) != MPI_SUCCESS) {
+  if (MPI_Allreduce (reduloctab, reduglbtab, 5, GNUM_MPI, MPI_SUM, grafptr->s.proccomm) != MPI_SUCCESS) {
     errorPrint ("bdgraphBipartDf: communication error (1)");
     return     (1);
   }
 
-  if (reduglbtab[0] < 0) {
-    if (ielsloctax != NULL)
+  if (reduglbtab[4] != 0) {                       /* If memory error     */
+    if (reduloctab[4] == 0)                       /* If it was not ours  */
       memFree (ielsloctax + grafptr->s.baseval);  /* Free group leader */
     return (1);
   }
diff --git a/src/libscotch/vdgraph_separate_df.c b/src/libscotch/vdgraph_separate_df.c
index dfb5454..9e72b3f 100644
--- a/src/libscotch/vdgraph_separate_df.c
+++ b/src/libscotch/vdgraph_separate_df.c
@@ -97,8 +97,8 @@ const VdgraphSeparateDfParam * const  paraptr)    /*+ Method parameters +*/
   float                           valolocval[2];  /* Fraction of load to remove from anchor vertices at each step */
   Gnum                            vanclocnnd;
   Gnum                            vertlocnum;
-  Gnum                            reduloctab[4];  /* Local degree of both anchor vertices, minus edges to other anchors, and their loads */
-  Gnum                            reduglbtab[4];
+  Gnum                            reduloctab[5];  /* Local degree of both anchor vertices, minus edges to other anchors, their loads, and memory errors */
+  Gnum                            reduglbtab[5];
   Gnum                            passnum;
   float                           cdifval;
   float                           cremval;
@@ -125,22 +125,24 @@ const VdgraphSeparateDfParam * const  paraptr)    /*+ Method parameters +*/
                      &difogsttax, (size_t) (grafptr->s.vertgstnbr * sizeof (float)),
                      &difngsttax, (size_t) (grafptr->s.vertgstnbr * sizeof (float)), NULL) == NULL) {
     errorPrint ("vdgraphSeparateDf: out of memory");
-    reduloctab[0] = -1;
+    reduloctab[4] = 1;
   }
   else {
+    reduloctab[4] = 0;
     ielsloctax -= grafptr->s.baseval;
     difogsttax -= grafptr->s.baseval;
     difngsttax -= grafptr->s.baseval;
   }
 
-  if (MPI_Allreduce (reduloctab, reduglbtab, 4, GNUM_MPI, MPI_SUM, grafptr->s.proccomm) != MPI_SUCCESS) {
+  if (MPI_Allreduce (reduloctab, reduglbtab, 5, GNUM_MPI, MPI_SUM, grafptr->s.proccomm) != MPI_SUCCESS) {
     errorPrint ("vdgraphSeparateDf: communication error (1)");
     return     (1);
   }
 
-  if (reduglbtab[0] < 0) {                        /* If memory error */
-    if (ielsloctax != NULL)
+  if (reduglbtab[4] != 0) {                       /* If memory error */
+    if (reduloctab[4] == 0)                       /* If it was not ours */
       memFree (ielsloctax + grafptr->s.baseval);  /* Free group leader */
+    return (1);
   }
   if ((reduglbtab[0] == 0) ||                     /* If graph is too small to have any usable anchors, leave partition as is */
       (reduglbtab[1] == 0)) {
-- 
2.43.0


From 9f692b25dcce7ada9c86667575b351d1ad7ae2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 16/58] fix: dgraphGhst returns on a process that lacks memory

---
 src/libscotch/dgraph_ghst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_ghst.c b/src/libscotch/dgraph_ghst.c
index 11f0fcc..61a0d34 100644
--- a/src/libscotch/dgraph_ghst.c
+++ b/src/libscotch/dgraph_ghst.c
@@ -152,8 +152,8 @@ const int                   flagval)              /* Replacement flag */
   if (cheklocval != 0) {                          /* TRICK: Processes not on error will perform collective communication at end of routine */
     if (dgraphAllreduceMaxSum (reduloctab, reduglbtab, 2, 1, grafptr->proccomm) != 0) {
       errorPrint ("dgraphGhst: communication error (1)");
-      return (1);
     }
+    return (1);
   }
 
   vertlocmin = procvrttab[grafptr->proclocnum];
-- 
2.43.0


From 2e31278948cca7cb821ac8056880adfa654fbaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 17/58] fix: bgraphBipartBd checks the reallocation of its band
 edge array

---
 src/libscotch/bgraph_bipart_bd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/bgraph_bipart_bd.c b/src/libscotch/bgraph_bipart_bd.c
index bf9501f..0d8e914 100644
--- a/src/libscotch/bgraph_bipart_bd.c
+++ b/src/libscotch/bgraph_bipart_bd.c
@@ -427,7 +427,14 @@ const BgraphBipartBdParam * const paraptr)        /*+ Method parameters +*/
   bndgrafdat.s.degrmax = bnddegrmax;
 
   bndedlooftval = bndedlotax - bndedgetax;
-  bndgrafdat.s.edgetax = (Gnum *) memRealloc (bndedgetax + bndgrafdat.s.baseval, (bndedlooftval + bndgrafdat.s.edgenbr) * sizeof (Gnum)) - bndgrafdat.s.baseval;
+  if ((bndgrafdat.s.edgetax = (Gnum *) memRealloc (bndedgetax + bndgrafdat.s.baseval, (bndedlooftval + bndgrafdat.s.edgenbr) * sizeof (Gnum))) == NULL) {
+    errorPrint ("bgraphBipartBd: out of memory (4)");
+    bndgrafdat.s.edgetax = bndedgetax;            /* Old array is still valid */
+    bgraphExit (&bndgrafdat);
+    memFree    (queutab);
+    return     (1);
+  }
+  bndgrafdat.s.edgetax -= bndgrafdat.s.baseval;
   bndgrafdat.s.edlotax = bndgrafdat.s.edgetax + bndedlooftval; /* Use old index into old array as new index */
   bndedgetax = bndgrafdat.s.edgetax;
   bndedlotax = bndgrafdat.s.edlotax;
-- 
2.43.0


From 41791c3dcbe4efe4fcf7ce87d964557fd2da06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 18/58] fix: hdgraphOrderNd checks the creation of its
 separator node

---
 src/libscotch/hdgraph_order_nd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hdgraph_order_nd.c b/src/libscotch/hdgraph_order_nd.c
index 977fec3..89258b4 100644
--- a/src/libscotch/hdgraph_order_nd.c
+++ b/src/libscotch/hdgraph_order_nd.c
@@ -358,7 +358,10 @@ const HdgraphOrderNdParam * restrict const  paraptr)
     DorderCblk *        cblkptr2;
     Hdgraph             indgrafdat2;
 
-    cblkptr2 = dorderNew (cblkptr, grafptr->s.proccomm); /* Create separator node */
+    if ((cblkptr2 = dorderNew (cblkptr, grafptr->s.proccomm)) == NULL) { /* Create separator node */
+      errorPrint ("hdgraphOrderNd2: cannot create separator node");
+      goto abort;
+    }
     cblkptr2->ordeglbval = cblkptr->ordeglbval + grafptr->s.vertglbnbr - vspgrafdat.compglbsize[2];
     cblkptr2->vnodglbnbr = vspgrafdat.compglbsize[2];
     cblkptr2->cblkfthnum = 2;
-- 
2.43.0


From 2b9af64c45888ca4dc869e9973761b01a4a49d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 19/58] fix: SCOTCH_graphPartOvlView returns when memory is
 missing

---
 src/libscotch/library_graph_map_view.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 2d42a6a..99a5c3b 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -711,6 +711,7 @@ FILE * const                        stream)
                      &compsize, (size_t) (partnbr * sizeof (Gnum)),
                      &listtab,  (size_t) ((partnbr + 1) * sizeof (GraphMapViewList)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphPartOvlView) ": out of memory");
+    return     (1);
   }
   listtab ++;                                     /* TRICK: Trim array so that listtab[-1] is valid */
   memSet (listtab, ~0, partnbr * sizeof (GraphMapViewList)); /* Set vertex indices to ~0            */
-- 
2.43.0


From b398206bdd927df6365d0f5a743c7767270d82bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 20/58] fix: SCOTCH_dgraphBand notifies memory errors without
 the arrays that it lacks

---
 src/libscotch/library_dgraph_band.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_dgraph_band.c b/src/libscotch/library_dgraph_band.c
index 49bb48d..529258c 100644
--- a/src/libscotch/library_dgraph_band.c
+++ b/src/libscotch/library_dgraph_band.c
@@ -139,7 +139,7 @@ SCOTCH_Dgraph * const       bndgrafptr)
   }
 
   cheklocval = 0;
-  bandvnumgstsiz = MAX ((grafptr->vertgstnbr * sizeof (Gnum)), (grafptr->procglbnbr * sizeof (int))); /* TRICK: re-use array for further error collective communications */
+  bandvnumgstsiz = MAX ((grafptr->vertgstnbr * sizeof (Gnum)), (grafptr->procglbnbr * sizeof (Gnum))); /* TRICK: re-use array for further error collective communications */
   if ((bandvnumgsttax = memAlloc (bandvnumgstsiz)) == NULL)
     errorPrint (STRINGIFY (SCOTCH_dgraphBand) ": out of memory (1)"); /* Error will be propagated by dgraphBand2*() */
   else {
@@ -198,8 +198,8 @@ SCOTCH_Dgraph * const       bndgrafptr)
   }
 
   if (cheklocval != 0) {                          /* In case of memory error */
-    bandgrafptr->procdsptab[0] = -1;
-    if (MPI_Allgather (&bandgrafptr->procdsptab[0], 1, GNUM_MPI, /* Send received data to dummy array */
+    bandvertlocnbr = -1;                          /* Array procdsptab may not have been allocated */
+    if (MPI_Allgather (&bandvertlocnbr, 1, GNUM_MPI, /* Send received data to dummy array */
                        bandvnumgsttax + bandgrafptr->baseval, 1, GNUM_MPI, grafptr->proccomm) != MPI_SUCCESS) {
       errorPrint (STRINGIFY (SCOTCH_dgraphBand) ": communication error (2)");
       goto abort;
-- 
2.43.0


From c542a2eaa9335f5d9888676749e60b2e942efbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 21/58] fix: computations report that their default strategy
 could not be built

---
 src/libscotch/library_arch_build.c     | 4 ++++
 src/libscotch/library_dgraph_map.c     | 7 +++++--
 src/libscotch/library_dgraph_order.c   | 5 +++--
 src/libscotch/library_graph_map.c      | 5 +++--
 src/libscotch/library_graph_order.c    | 5 +++--
 src/libscotch/library_graph_part_ovl.c | 5 +++--
 src/libscotch/library_mesh_order.c     | 5 +++--
 7 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/libscotch/library_arch_build.c b/src/libscotch/library_arch_build.c
index 88e5826..b9a82d7 100644
--- a/src/libscotch/library_arch_build.c
+++ b/src/libscotch/library_arch_build.c
@@ -157,6 +157,10 @@ const SCOTCH_Strat * const  stratptr)             /*+ Bipartitoning strategy
   if (*((Strat **) stratptr) == NULL)             /* Set default mapping strategy if necessary */
     *((Strat **) stratptr) = stratInit (&bgraphbipartststratab, "(m{vert=50,low=h{pass=10},asc=f{move=100,bal=0.1}}f{move=100,bal=0.05})(/((load0=load)|(load0=0))?x;)");
   bipstratptr = *((Strat **) stratptr);
+  if (bipstratptr == NULL) {
+    errorPrint (STRINGIFY (SCOTCH_archBuild0) ": cannot build default strategy");
+    return (1);
+  }
   if (bipstratptr->tablptr != &bgraphbipartststratab) {
     errorPrint (STRINGIFY (SCOTCH_archBuild0) ": not a bipartitioning strategy");
     return (1);
diff --git a/src/libscotch/library_dgraph_map.c b/src/libscotch/library_dgraph_map.c
index 1803bb0..9af767b 100644
--- a/src/libscotch/library_dgraph_map.c
+++ b/src/libscotch/library_dgraph_map.c
@@ -173,9 +173,12 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy   +*/
 
     archDomFrst (&srcmappptr->m.archdat, &archdomnorg);
     if (archVar (&srcmappptr->m.archdat))
-      SCOTCH_stratDgraphClusterBuild (straptr, 0, srcgrafptr->procglbnbr, 1, 1.0, 0.05);
+      o = SCOTCH_stratDgraphClusterBuild (straptr, 0, srcgrafptr->procglbnbr, 1, 1.0, 0.05);
     else
-      SCOTCH_stratDgraphMapBuild (straptr, 0, srcgrafptr->procglbnbr, archDomSize (&srcmappptr->m.archdat, &archdomnorg), 0.05);
+      o = SCOTCH_stratDgraphMapBuild (straptr, 0, srcgrafptr->procglbnbr, archDomSize (&srcmappptr->m.archdat, &archdomnorg), 0.05);
+    if (o != 0)
+      goto abort;
+    o = 1;                                        /* Assume an error again */
   }
   mapstraptr = *((Strat **) straptr);
   if (mapstraptr->tablptr != &kdgraphmapststratab) {
diff --git a/src/libscotch/library_dgraph_order.c b/src/libscotch/library_dgraph_order.c
index 7e08b11..e1bd976 100644
--- a/src/libscotch/library_dgraph_order.c
+++ b/src/libscotch/library_dgraph_order.c
@@ -189,8 +189,9 @@ SCOTCH_Strat * const        straptr)              /*+ Ordering strategy
   }
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
 
-  if (*((Strat **) straptr) == NULL)              /* Set default ordering strategy if necessary */
-    SCOTCH_stratDgraphOrderBuild (straptr, SCOTCH_STRATQUALITY, srcgrafptr->procglbnbr, 0, 0.2);
+  if ((*((Strat **) straptr) == NULL) &&          /* Set default ordering strategy if necessary */
+      (SCOTCH_stratDgraphOrderBuild (straptr, SCOTCH_STRATQUALITY, srcgrafptr->procglbnbr, 0, 0.2) != 0))
+    goto abort;
 
   ordstraptr = *((Strat **) straptr);
   if (ordstraptr->tablptr != &hdgraphorderststratab) {
diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index b8191d7..e66c2d0 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -214,8 +214,9 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy
 
   archDomFrst (lmapptr->archptr, &domnorg);       /* Compute initial domain to map to */
 
-  if (*((Strat **) straptr) == NULL)              /* Set default mapping strategy if necessary */
-    SCOTCH_stratGraphMapBuild (straptr, SCOTCH_STRATDEFAULT, archDomSize (lmapptr->archptr, &domnorg), 0.01);
+  if ((*((Strat **) straptr) == NULL) &&          /* Set default mapping strategy if necessary */
+      (SCOTCH_stratGraphMapBuild (straptr, SCOTCH_STRATDEFAULT, archDomSize (lmapptr->archptr, &domnorg), 0.01) != 0))
+    goto abort;
 
   mapstraptr = *((Strat **) straptr);
 #ifdef SCOTCH_DEBUG_LIBRARY1
diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 3ecb02e..677ab35 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -279,8 +279,9 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
     goto abort;
   }
 
-  if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
-    SCOTCH_stratGraphOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0, 0.2);
+  if ((*((Strat **) stratptr) == NULL) &&         /* Set default ordering strategy if necessary */
+      (SCOTCH_stratGraphOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0, 0.2) != 0))
+    goto abort;
 
   ordstratptr = *((Strat **) stratptr);
   if (ordstratptr->tablptr != &hgraphorderststratab) {
diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index 5bc5b89..be09b2b 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -96,8 +96,9 @@ SCOTCH_Num * const          parttab)              /*+ Partition array       +*/
     return     (o);
   }
 
-  if (*((Strat **) straptr) == NULL)              /* Set default partitioning strategy if necessary */
-    SCOTCH_stratGraphPartOvlBuild (straptr, SCOTCH_STRATQUALITY, (Gnum) partnbr, (double) 0.05);
+  if ((*((Strat **) straptr) == NULL) &&          /* Set default partitioning strategy if necessary */
+      (SCOTCH_stratGraphPartOvlBuild (straptr, SCOTCH_STRATQUALITY, (Gnum) partnbr, (double) 0.05) != 0))
+    goto abort;
 
   partstraptr = *((Strat **) straptr);
   if (partstraptr->tablptr != &wgraphpartststratab) {
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 3752a36..6bdbc61 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -250,8 +250,9 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
   }
 #endif /* SCOTCH_DEBUG_MESH2 */
 
-  if (*((Strat **) stratptr) == NULL)             /* Set default ordering strategy if necessary */
-    SCOTCH_stratMeshOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0.1);
+  if ((*((Strat **) stratptr) == NULL) &&         /* Set default ordering strategy if necessary */
+      (SCOTCH_stratMeshOrderBuild (stratptr, SCOTCH_STRATQUALITY, 0.1) != 0))
+    goto abort;
 
   ordstratptr = *((Strat **) stratptr);
   if (ordstratptr->tablptr != &hmeshorderststratab) {
-- 
2.43.0


From ff4b3cad6a38d8b941c2c85f60ede3a106c2a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 22/58] fix: ordering an empty list of vertices is not an error

---
 src/libscotch/library_graph_order.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 677ab35..11b8f38 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -276,6 +276,7 @@ SCOTCH_Strat * const        stratptr)             /*+ Ordering strategy
 
   if (listnbr == 0) {                             /* If empty list, return identity permutation */
     intAscn (libordeptr->o.peritab, srcgrafptr->vertnbr, srcgrafptr->baseval);
+    o = 0;
     goto abort;
   }
 
-- 
2.43.0


From b25182bde4e3c302f2a27246efd3784f719851ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 23/58] fix: one-call ordering routines report the failure of
 their initialization

---
 src/libscotch/library_graph_order.c | 3 ++-
 src/libscotch/library_mesh_order.c  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 11b8f38..2b164b2 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -444,7 +444,8 @@ SCOTCH_Num * const          treetab)              /*+ Column block range array
   SCOTCH_Ordering     ordedat;
   int                 o;
 
-  SCOTCH_graphOrderInit (grafptr, &ordedat, permtab, peritab, cblkptr, rangtab, treetab);
+  if (SCOTCH_graphOrderInit (grafptr, &ordedat, permtab, peritab, cblkptr, rangtab, treetab) != 0)
+    return (1);
   o = SCOTCH_graphOrderComputeList (grafptr, &ordedat, listnbr, listtab, stratptr);
   SCOTCH_graphOrderExit (grafptr, &ordedat);
 
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index 6bdbc61..ab25d70 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -315,7 +315,8 @@ SCOTCH_Num * const          treetab)              /*+ Separator tree array
   SCOTCH_Ordering     ordedat;
   int                 o;
 
-  SCOTCH_meshOrderInit (meshptr, &ordedat, permtab, peritab, cblkptr, rangtab, treetab);
+  if (SCOTCH_meshOrderInit (meshptr, &ordedat, permtab, peritab, cblkptr, rangtab, treetab) != 0)
+    return (1);
   o = SCOTCH_meshOrderCompute (meshptr, &ordedat, stratptr);
   SCOTCH_meshOrderExit (meshptr, &ordedat);
 
@@ -347,7 +348,8 @@ SCOTCH_Num * const          treetab)              /*+ Column block range array
   SCOTCH_Ordering     ordedat;
   int                 o;
 
-  SCOTCH_meshOrderInit (meshptr, &ordedat, permtab, peritab, cblkptr, rangtab, treetab);
+  if (SCOTCH_meshOrderInit (meshptr, &ordedat, permtab, peritab, cblkptr, rangtab, treetab) != 0)
+    return (1);
   o = SCOTCH_meshOrderComputeList (meshptr, &ordedat, listnbr, listtab, stratptr);
   SCOTCH_meshOrderExit (meshptr, &ordedat);
 
-- 
2.43.0


From 9edae3009b224a422695548954b137a503a5c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 24/58] fix: kgraphMapFm checks, uses and frees its auxiliary
 strategy

---
 src/libscotch/kgraph_map_fm.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libscotch/kgraph_map_fm.c b/src/libscotch/kgraph_map_fm.c
index 4943341..4f91123 100644
--- a/src/libscotch/kgraph_map_fm.c
+++ b/src/libscotch/kgraph_map_fm.c
@@ -1034,10 +1034,20 @@ const KgraphMapFmParam * const    paraptr)        /*+ Method parameters +*/
       return  (0);
     }
     else {                                        /* Imbalance must be fought */
-      const Strat *         strat;
+      Strat *               strat;
+      int                   o;
 
-      strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}"); /* Use a standard algorithm */
-      kgraphMapSt (grafptr, strat);               /* Perform mapping */
+      if ((strat = stratInit (&kgraphmapststratab, "r{sep=h{pass=10}}")) == NULL) { /* Use a standard algorithm */
+        errorPrint ("kgraphMapFm: cannot build strategy");
+        memFree    (comploadmax);
+        return     (1);
+      }
+      o = kgraphMapSt (grafptr, strat);           /* Perform mapping */
+      stratExit (strat);
+      if (o != 0) {
+        memFree (comploadmax);
+        return  (1);
+      }
 
       if (grafptr->fronnbr == 0) {                /* If new partition has no frontier */
         memFree (comploadmax);
-- 
2.43.0


From 53cd3587ef0ae2442b33e408a0995016544fc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:55 +0000
Subject: [PATCH 25/58] fix: graph mapping refuses strategies of another kind
 in all builds

---
 src/libscotch/library_graph_map.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index e66c2d0..e6d0a01 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -219,12 +219,10 @@ SCOTCH_Strat * const        straptr)              /*+ Mapping strategy
     goto abort;
 
   mapstraptr = *((Strat **) straptr);
-#ifdef SCOTCH_DEBUG_LIBRARY1
   if (mapstraptr->tablptr != &kgraphmapststratab) {
     errorPrint ("graphMapCompute2: not a graph mapping strategy");
     goto abort;
   }
-#endif /* SCOTCH_DEBUG_LIBRARY1 */
 
   if (vfixnbr > 0) {                              /* We have fixed vertices */
 #ifdef SCOTCH_DEBUG_LIBRARY1
-- 
2.43.0


From 6515ff6426b43f5d6741c863ae8dda0eb37de3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 26/58] fix: dgraphGhst keeps a valid send index array when it
 cannot be resized, and frees it on error

---
 src/libscotch/dgraph_ghst.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/dgraph_ghst.c b/src/libscotch/dgraph_ghst.c
index 61a0d34..35e6ab1 100644
--- a/src/libscotch/dgraph_ghst.c
+++ b/src/libscotch/dgraph_ghst.c
@@ -281,7 +281,8 @@ const int                   flagval)              /* Replacement flag */
   grafptr->procngbnbr = procngbnbr;
   grafptr->procsndnbr = procsndnbr;
 
-  grafptr->procsidtab = memRealloc (procsidtab, procsidnbr * sizeof (int)); /* Reallocate send index array */
+  if ((grafptr->procsidtab = memRealloc (procsidtab, procsidnbr * sizeof (int))) == NULL) /* Reallocate send index array */
+    grafptr->procsidtab = procsidtab;             /* If cannot, keep larger array */
   grafptr->procsidnbr = procsidnbr;
 
   reduloctab[0] = 0;                              /* No memory error                 */
@@ -291,8 +292,11 @@ const int                   flagval)              /* Replacement flag */
     errorPrint ("dgraphGhst: communication error (5)");
     return (1);
   }
-  if (reduglbtab[0] != 0)                         /* If error, propagated by some previous reduction operator */
+  if (reduglbtab[0] != 0) {                       /* If error, propagated by some previous reduction operator */
+    memFree (grafptr->procsidtab);
+    grafptr->procsidtab = NULL;
     return (1);
+  }
 
   grafptr->procngbmax = reduglbtab[1];
   grafptr->flagval   |= DGRAPHFREEPSID | DGRAPHHASEDGEGST; /* Graph now has a valid ghost edge array */
-- 
2.43.0


From 49f91349d1a74e2db60b10e02e339d76ec653153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:06 +0000
Subject: [PATCH 27/58] fix: dgraphLoadCent completes its sends when the
 receiver lacks memory

---
 src/libscotch/dgraph_io_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index 6c173b3..f539d71 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -458,8 +458,8 @@ const int                   protnum)              /* Root process number
                 return     (1);
               }
             }
-            MPI_Waitall (requnbr, &requtab[0], &stattab[0]);
           }
+          MPI_Waitall (requnbr, &requtab[0], &stattab[0]);
         }
         else {                                    /* Arrays are local */
           velolocsum = (veloredtax != NULL) ? veloredsum : vertlocnbr; /* Save accumulated values as local data */
-- 
2.43.0


From 63547bf9ae45401314a1320c7d1ddc9b306ee2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 28/58] fix: vdgraphSeparateSq frees its MPI objects when the
 graph cannot be centralized

---
 src/libscotch/vdgraph_separate_sq.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/vdgraph_separate_sq.c b/src/libscotch/vdgraph_separate_sq.c
index 7281594..099e32c 100644
--- a/src/libscotch/vdgraph_separate_sq.c
+++ b/src/libscotch/vdgraph_separate_sq.c
@@ -159,7 +159,9 @@ const VdgraphSeparateSqParam * const  paraptr)    /*+ Method parameters +*/
   dgrfptr->s.vnumloctax = vnumloctax;             /* Restore vertex number array */
   if (o != 0) {
     errorPrint ("vdgraphSeparateSq: cannot build centralized graph");
-    return     (1);
+    MPI_Op_free   (&bestoperdat);
+    MPI_Type_free (&besttypedat);
+    return (1);
   }
 
   if (vgraphSeparateSt (&cgrfdat, paraptr->strat) != 0) { /* Separate centralized graph */
-- 
2.43.0


From db43a36dcd40fbb568321a3e2f7cf33f20c28e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 29/58] fix: bdgraphBipartSq agrees on errors on all processes,
 and frees its MPI objects

---
 src/libscotch/bdgraph_bipart_sq.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libscotch/bdgraph_bipart_sq.c b/src/libscotch/bdgraph_bipart_sq.c
index 0df2e75..f10d7dd 100644
--- a/src/libscotch/bdgraph_bipart_sq.c
+++ b/src/libscotch/bdgraph_bipart_sq.c
@@ -167,7 +167,9 @@ const BdgraphBipartSqParam * const  paraptr)      /*+ Method parameters +*/
   dgrfptr->s.vnumloctax = vnumloctax;             /* Restore vertex number array */
   if (o != 0) {
     errorPrint ("bdgraphBipartSq: cannot build centralized graph");
-    return     (1);
+    MPI_Op_free   (&bestoperdat);
+    MPI_Type_free (&besttypedat);
+    return (1);
   }
 
   if (bgraphBipartSt (&cgrfdat, paraptr->strat) != 0) { /* Bipartition centralized graph */
@@ -192,7 +194,8 @@ const BdgraphBipartSqParam * const  paraptr)      /*+ Method parameters +*/
         errorPrint ("bdgraphBipartSq: out of memory (1)");
         reduloctab[5] = 1;                        /* Allocated data will be freed along with graph structure */
       }
-      dgrfptr->partgsttax -= dgrfptr->s.baseval;
+      else
+        dgrfptr->partgsttax -= dgrfptr->s.baseval;
     }
     if ((dgrfptr->fronloctab = (Gnum *) memAlloc (dgrfptr->s.vertlocnbr * sizeof (Gnum))) == NULL) {
       errorPrint ("bdgraphBipartSq: out of memory (2)");
@@ -204,18 +207,20 @@ const BdgraphBipartSqParam * const  paraptr)      /*+ Method parameters +*/
     errorPrint ("bdgraphBipartSq: communication error (2)");
     return     (1);
   }
-  if ((reduloctab[4] != 0) && (reduloctab[4] != dgrfptr->s.procglbnbr)) {
-    errorPrint ("bdgraphBipartSq: internal error");
-    return     (1);
-  }
-
   if ((MPI_Op_free   (&bestoperdat) != MPI_SUCCESS) ||
       (MPI_Type_free (&besttypedat) != MPI_SUCCESS)) {
     errorPrint ("bdgraphBipartSq: communication error (3)");
     return     (1);
   }
 
-  if (reduglbtab[3] != 0) {                       /* If none of the sequential methods succeeded */
+  if ((reduglbtab[4] != 0) && (reduglbtab[4] != dgrfptr->s.procglbnbr)) {
+    errorPrint ("bdgraphBipartSq: internal error");
+    bgraphExit (&cgrfdat);
+    return     (1);
+  }
+
+  if ((reduglbtab[3] != 0) ||                     /* If none of the sequential methods succeeded */
+      (reduglbtab[5] != 0)) {                     /* Or if some process lacked memory            */
     bgraphExit (&cgrfdat);
     return     (1);
   }
-- 
2.43.0


From 777a212e93049ecef1b56c441d5e8a732d298065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:35 +0000
Subject: [PATCH 30/58] fix: kgraphMapDfLoop: threads that give up meet the
 same barriers as the others

---
 src/libscotch/kgraph_map_df.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/libscotch/kgraph_map_df.c b/src/libscotch/kgraph_map_df.c
index b8b7a68..6556a8f 100644
--- a/src/libscotch/kgraph_map_df.c
+++ b/src/libscotch/kgraph_map_df.c
@@ -219,15 +219,12 @@ KgraphMapDfData * restrict const  loopptr)
       velsmsk &= (velssum != 0);
     }
   }
-  if (velsmsk == 0) {                             /* If graph is too small to have any usable anchors */
-    loopptr->abrtval = 1;                         /* We will leave during the first iteration         */
-    goto abort;
-  }
+  if (velsmsk == 0)                               /* If graph is too small to have any usable anchors   */
+    loopptr->abrtval = 1;                         /* All threads will leave after the next two barriers */
 
   if ((sorttab = memAlloc (domnnbr * sizeof (KgraphMapDfSort))) == NULL) { /* Allocate here for memory affinity as it is a private array */
     errorPrint ("kgraphMapDfLoop: out of memory");
-    loopptr->abrtval = 1;
-    goto abort;
+    loopptr->abrtval = 1;                         /* All threads will leave after the next two barriers */
   }
 
   if (velotax == NULL) {
@@ -289,7 +286,8 @@ KgraphMapDfData * restrict const  loopptr)
 #endif /* KGRAPHMAPDFNOTHREAD */
 
   if (loopptr->abrtval == 1) {                    /* If process alone or some decided to quit */
-    memFree (sorttab);                            /* Free local array                         */
+    if (sorttab != NULL)
+      memFree (sorttab);                          /* Free local array */
     return;
   }
 
-- 
2.43.0


From 02352b5228a412ab848146009c43bfc78ecfaa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:35 +0000
Subject: [PATCH 31/58] fix: bgraphBipartDfLoop: all threads take part in the
 reductions, even after an error or an overflow

---
 src/libscotch/bgraph_bipart_df.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/libscotch/bgraph_bipart_df.c b/src/libscotch/bgraph_bipart_df.c
index 9e98e2a..f6aad9c 100644
--- a/src/libscotch/bgraph_bipart_df.c
+++ b/src/libscotch/bgraph_bipart_df.c
@@ -204,6 +204,9 @@ BgraphBipartDfData * restrict const loopptr)
   difntax = loopptr->difntax;
   distval = grafptr->domndist;
 
+  veexsum  =                                      /* Assume no external gains */
+  veexsum1 = 0;
+
   if (memAllocGroup ((void **) (void *)           /* Allocate here for memory affinity as it is a private array */
                      &ielstax, (size_t) (vertsiz * sizeof (Gnum)), /* Ielstab is group leader as never optional */
                      &frontab, (size_t) (fronsiz * sizeof (Gnum)), NULL) == NULL) {
@@ -218,8 +221,6 @@ BgraphBipartDfData * restrict const loopptr)
 
   veexval  =                                      /* Assume no external gains */
   veexval1 = 0;
-  veexsum  =
-  veexsum1 = 0;
   for (vertnum = vertbas; vertnum < vertnnd; vertnum ++) { /* Process all vertices, including anchors */
     Gnum                edlosum;
 
@@ -253,7 +254,9 @@ BgraphBipartDfData * restrict const loopptr)
     difotax[vertnum] = 0.0;
     ielstax[vertnum] = 1.0F / (float) (edlosum + veexval - 2 * veexval1); /* Add absolute value of veexval */
   }
-  if (veextax != NULL) {
+
+skip :
+  if (veextax != NULL) {                          /* Reduction must be performed by all threads, even in case of error */
     loopptr->thrdtab[thrdnum].veexsum  = veexsum;
     loopptr->thrdtab[thrdnum].veexsum1 = veexsum1;
 #ifndef BGRAPHBIPARTDFNOTHREAD
@@ -262,17 +265,16 @@ BgraphBipartDfData * restrict const loopptr)
     veexsum  = loopptr->thrdtab[thrdnum].veexsum; /* Will be useful for thread (thrdlst) only */
     veexsum1 = loopptr->thrdtab[thrdnum].veexsum1;
 
-    if (thrdnum == thrdlst) {                     /* Last thread will handle anchors as root of reduction */
+    if ((thrdnum == thrdlst) && (ielstax != NULL)) { /* Last thread will handle anchors as root of reduction */
       ielstax[vertnnd - 2] = 1.0F / (1.0F / ielstax[vertnnd - 2] + (float) (veexsum - veexsum1));
       ielstax[vertnnd - 1] = 1.0F / (1.0F / ielstax[vertnnd - 1] - (float) veexsum1);
     }
   }
-  if (thrdnum == thrdlst) {                       /* Last thread will handle anchors as root of reduction     */
+  if ((thrdnum == thrdlst) && (ielstax != NULL)) { /* Last thread will handle anchors as root of reduction    */
     difotax[vertnnd - 2] = loopptr->vanctab[0] * ielstax[vertnnd - 2]; /* Load anchor vertices for first pass */
     difotax[vertnnd - 1] = loopptr->vanctab[1] * ielstax[vertnnd - 1];
   }
 
-skip :
 #ifndef BGRAPHBIPARTDFNOTHREAD
   threadBarrier (descptr);                        /* Wait until all array values have been computed */
 #endif /* BGRAPHBIPARTDFNOTHREAD */
@@ -359,6 +361,7 @@ skip :
 #endif /* SCOTCH_DEBUG_BGRAPH2 */
           loopptr->abrtval = 1;                   /* Threads need to halt                      */
           vertnum = vancnnt;                      /* Skip regular computations but synchronize */
+          break;
         }
 
         difntax[vertnum] = diffval * ielstax[vertnum];
@@ -366,11 +369,6 @@ skip :
       if (vertnum == vancnnd) {                   /* If first time we reach the end of regular vertices */
         loopptr->thrdtab[thrdnum].vanctab[0] = vancval0;
         loopptr->thrdtab[thrdnum].vanctab[1] = vancval1;
-        if (veextax != NULL) {
-#ifndef BGRAPHBIPARTDFNOTHREAD
-          threadReduce (descptr, &loopptr->thrdtab[thrdnum], sizeof (BgraphBipartDfThread), (ThreadReduceFunc) bgraphBipartDfReduceVanc, thrdlst, NULL);
-#endif /* BGRAPHBIPARTDFNOTHREAD */
-        }
       }
 
       if (vertnum >= vertnnd)                     /* If all vertices processed in range array, exit intermediate infinite loop */
@@ -380,6 +378,11 @@ skip :
       vancval = loopptr->vanctab[vertnum - vancnnd] + loopptr->vanctab[vertnum - vancnnd]; /* Load variable with anchor value */
     }
 
+#ifndef BGRAPHBIPARTDFNOTHREAD
+    if (veextax != NULL)                          /* Out of the above loop, as all threads must take part */
+      threadReduce (descptr, &loopptr->thrdtab[thrdnum], sizeof (BgraphBipartDfThread), (ThreadReduceFunc) bgraphBipartDfReduceVanc, thrdlst, NULL);
+#endif /* BGRAPHBIPARTDFNOTHREAD */
+
     difttax = (float *) difntax;                  /* Swap old and new diffusion arrays          */
     difntax = (float *) difotax;                  /* Casts to prevent IBM compiler from yelling */
     difotax = (float *) difttax;
-- 
2.43.0


From d1d6a4d837ae5a99ece2d83841b9d105b28afff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:22 +0000
Subject: [PATCH 32/58] fix: SCOTCH_graphMapView no longer overwrites the
 mapping that it is given

---
 src/libscotch/library_graph_map_view.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/libscotch/library_graph_map_view.c b/src/libscotch/library_graph_map_view.c
index 99a5c3b..c768d9d 100644
--- a/src/libscotch/library_graph_map_view.c
+++ b/src/libscotch/library_graph_map_view.c
@@ -200,7 +200,8 @@ FILE * const                  stream)             /*+ Output stream
 {
   const Arch * restrict     archptr;
   LibMapping * restrict     lmaoptr;
-  Anum * restrict           parttax;              /* Part array                                   */
+  const Anum * restrict     parttax;              /* Mapping array of user                    */
+  Anum * restrict           pmaptax;              /* Same with parts renumbered without holes */
   Anum * restrict           parotax;              /* Old part array                               */
   MappingSort * restrict    domntab;              /* Pointer to domain sort array                 */
   ArchDom                   domnfrst;             /* Largest domain in architecture               */
@@ -287,10 +288,11 @@ FILE * const                  stream)             /*+ Output stream
   }
 #endif /* SCOTCH_DEBUG_LIBRARY1 */
   archptr = lmapptr->archptr;
-  parttax = lmapptr->parttab;
+  parttax = lmapptr->parttab;                     /* Un-based array at this stage */
 
   if (memAllocGroup ((void **) (void *)
                      &domntab, (size_t) ((grafptr->vertnbr + 1) * sizeof (MappingSort)),
+                     &pmaptax, (size_t) (grafptr->vertnbr       * sizeof (Anum)),
                      &nghbtab, (size_t) ((grafptr->vertnbr + 2) * sizeof (Anum)), NULL) == NULL) {
     errorPrint (STRINGIFY (SCOTCH_graphMapView) ": out of memory");
     return (1);
@@ -301,6 +303,7 @@ FILE * const                  stream)             /*+ Output stream
     domntab[vertnum].peri = vertnum + grafptr->baseval; /* Build inverse permutation */
   }
   parttax -= grafptr->baseval;
+  pmaptax -= grafptr->baseval;
   domntab[grafptr->vertnbr].labl = ARCHDOMNOTTERM; /* TRICK: avoid testing (i+1)   */
   domntab[grafptr->vertnbr].peri = ~0;            /* Prevent Valgrind from yelling */
 
@@ -313,7 +316,7 @@ FILE * const                  stream)             /*+ Output stream
   mapsum  = 0;
   veloval = 1;                                    /* Assume unweighted vertices */
   for (vertidx = 0; domntab[vertidx].labl != ARCHDOMNOTTERM; vertidx ++) {
-    parttax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
+    pmaptax[domntab[vertidx].peri] = mapnbr;      /* Build map of partition parts starting from 0  */
     if (domntab[vertidx].labl != domntab[vertidx + 1].labl) /* TRICK: if new (or end) domain label */
       mapnbr ++;
     if (velotax != NULL)
@@ -387,13 +390,13 @@ FILE * const                  stream)             /*+ Output stream
       Gnum                edgennd;
       Anum                partnum;
 
-      partnum = parttax[domntab[vertidx].peri];
+      partnum = pmaptax[domntab[vertidx].peri];
       for (edgenum = verttax[domntab[vertidx].peri],
            edgennd = vendtax[domntab[vertidx].peri];
            edgenum < edgennd; edgenum ++) {
         Anum                partend;
 
-        partend = parttax[edgetax[edgenum]];
+        partend = pmaptax[edgetax[edgenum]];
         if ((partend != partnum) &&               /* If edge is not internal                                      */
             (partend != nghbtab[nghbnbr])) {      /* And neighbor is not sole neighbor or has not just been found */
           Anum                partmin;
@@ -535,7 +538,7 @@ FILE * const                  stream)             /*+ Output stream
     do {
       Gnum                diamval;
 
-      diamval  = graphMapView3 (grafptr, parttax, mapnum);
+      diamval  = graphMapView3 (grafptr, pmaptax, mapnum);
       diamsum += diamval;
       if (diamval < diammin)
         diammin = diamval;
-- 
2.43.0


From d64e549d020e71d7ec4a55d1de5d2cb251e13573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:22 +0000
Subject: [PATCH 33/58] fix: hmeshMesh copies the whole of the halo node part
 and no more

---
 src/libscotch/hmesh_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_mesh.c b/src/libscotch/hmesh_mesh.c
index 7ba611a..4e21a6b 100644
--- a/src/libscotch/hmesh_mesh.c
+++ b/src/libscotch/hmesh_mesh.c
@@ -127,7 +127,7 @@ Mesh * restrict const         meshptr)            /*+ Mesh to build      +*/
       return     (1);
     }
     memCpy (meshptr->vendtax, hmshptr->m.vendtax + hmshptr->m.baseval, hmshptr->vnohnbr * sizeof (Gnum)); /* Copy non-halo node part */
-    memCpy (meshptr->vendtax + hmshptr->vnohnbr, hmshptr->m.verttax + hmshptr->vnohnnd, hmshptr->m.vnodnbr - hmshptr->vnohnbr * sizeof (Gnum)); /* Create empty fake element part */
+    memCpy (meshptr->vendtax + hmshptr->vnohnbr, hmshptr->m.verttax + hmshptr->vnohnnd, (hmshptr->m.vnodnbr - hmshptr->vnohnbr) * sizeof (Gnum)); /* Create empty fake element part */
     memCpy (meshptr->vendtax + hmshptr->m.vnodnbr, hmshptr->vehdtax + hmshptr->m.velmbas, hmshptr->m.velmnbr * sizeof (Gnum));
 
     meshptr->velmnbr = hmshptr->m.velmnbr + hmshptr->m.vnodnbr - hmshptr->vnohnbr; /* Turn halo node vertices into element vertices */
-- 
2.43.0


From bd8b5e7fb85cb71bbeb2b0ca085d1e34c3844a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 34/58] fix: graphLoad no longer frees its vertex arrays twice
 when out of memory

---
 src/libscotch/graph_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/graph_io.c b/src/libscotch/graph_io.c
index 57da146..0427e36 100644
--- a/src/libscotch/graph_io.c
+++ b/src/libscotch/graph_io.c
@@ -167,8 +167,8 @@ const GraphFlag             flagval)              /* Graph loading flags
                       &grafptr->edlotax, (size_t) (edlosiz                * sizeof (Gnum)), NULL) == NULL)) {
     if (grafptr->verttax != NULL)
       memFree (grafptr->verttax);
+    grafptr->flagval = GRAPHNONE;                 /* No array remains to be freed */
     errorPrint ("graphLoad: out of memory");
-    graphFree  (grafptr);
     return (1);
   }
   grafptr->vertnnd  = grafptr->vertnbr + grafptr->baseval;
-- 
2.43.0


From 5c5ede11971aec82aa16d1905b76ea8b38f19abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 35/58] fix: archCmpltwArchLoad frees its weight array on bad
 input

---
 src/libscotch/arch_cmpltw.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/arch_cmpltw.c b/src/libscotch/arch_cmpltw.c
index 71fbb18..d4efe82 100644
--- a/src/libscotch/arch_cmpltw.c
+++ b/src/libscotch/arch_cmpltw.c
@@ -247,6 +247,7 @@ FILE * restrict const       stream)
     if ((fscanf (stream, "%ld", &velotmp) != 1) ||
         (velotmp < 1)) {
       errorPrint ("archCmpltwArchLoad: bad input (2)");
+      memFree    (vecwtab);
       return (1);
     }
     veloval = (Anum) velotmp;
-- 
2.43.0


From aa3bc975e02b73583e0b7cd464f232fd4dcbfa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 36/58] fix: graphCoarsen reports and cleans up after errors
 that arise in its threads

---
 src/libscotch/graph_coarsen.c | 24 ++++++++++++++++++++++--
 src/libscotch/graph_match.c   |  2 ++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/libscotch/graph_coarsen.c b/src/libscotch/graph_coarsen.c
index 1c23fad..1b0bade 100644
--- a/src/libscotch/graph_coarsen.c
+++ b/src/libscotch/graph_coarsen.c
@@ -255,6 +255,7 @@ GraphCoarsenData * restrict const coarptr)
       errorPrint ("graphCoarsen3: out of memory (1)");
       if (coargrafptr->verttax != NULL)
         memFree (coargrafptr->verttax);
+      coargrafptr->flagval = GRAPHNONE;           /* No array remains to be freed */
       coarptr->retuval = 2;
 #ifdef GRAPHCOARSENNOTHREAD
 #ifdef SCOTCH_PTHREAD
@@ -383,8 +384,11 @@ GraphCoarsenData * restrict const coarptr)
   if (thrdnbr > 1) {                              /* If more than one thread                                      */
     threadBarrier (descptr);                      /* Ensure all of finecoartax has been written (or memory error) */
 
-    if (coarptr->retuval != 0)                    /* After barrier, in case memory allocation failed */
+    if (coarptr->retuval != 0) {                  /* After barrier, in case memory allocation failed */
+      if (thrdptr->coarhashtab != NULL)           /* If someone else's allocation failed             */
+        memFree (thrdptr->coarhashtab);           /* Free our own hash table                         */
       return;
+    }
 
     if ((coarptr->flagval & GRAPHCOARSENNOCOMPACT) != 0) { /* If willing to have faster a non-compact graph */
       Gnum                coarvertnnd;
@@ -523,9 +527,13 @@ GraphCoarsenData * restrict const     coarptr)
 #endif /* GRAPHCOARSENNOTHREAD */
     coarptr->flagval &= ~GRAPHCOARSENNOCOMPACT;   /* Non-compact graphs always imply more than one thread */
 
+  coarptr->finelocktax = NULL;                    /* No lock array allocated yet                */
   if ((coarptr->flagval & GRAPHCOARSENUSEMATE) == 0) { /* If mating array not provided          */
-    if (graphMatchInit (coarptr, thrdnbr) != 0)   /* Initialize global data needed for matching */
+    if (graphMatchInit (coarptr, thrdnbr) != 0) { /* Initialize global data needed for matching */
+      if (finematetab != NULL)
+        memFree (finematetab);
       return (2);
+    }
   }
 
   if (coarptr->coarmulttab != NULL)               /* Record that multinode array was provided */
@@ -533,16 +541,28 @@ GraphCoarsenData * restrict const     coarptr)
 
   if ((coarptr->thrdtab = memAlloc (thrdnbr * sizeof (GraphCoarsenThread))) == NULL) {
     errorPrint ("graphCoarsen2: out of memory (2)");
+    if (coarptr->finelocktax != NULL)
+      memFree (coarptr->finelocktax + baseval);
     if (finematetab != NULL)
       memFree (finematetab);
     return (2);
   }
   coarptr->retuval = 0;                           /* Assume no error */
+  if (coargrafptr != NULL)                        /* No coarse graph array allocated yet */
+    coargrafptr->flagval = GRAPHNONE;
 
   contextThreadLaunch (coarptr->contptr, (ThreadFunc) graphCoarsen3, (void *) coarptr);
 
   memFree (coarptr->thrdtab);
 
+  if (coarptr->retuval != 0) {                    /* If error or coarse graph too large          */
+    if (finematetab != NULL)                      /* Mating data array will not be given back    */
+      memFree (finematetab);
+    if ((coarptr->retuval == 2) && (coargrafptr != NULL)) /* If error, free partial coarse graph */
+      graphFree (coargrafptr);
+    return (coarptr->retuval);
+  }
+
   if ((coarptr->flagval & GRAPHCOARSENDSTMATE) == 0) /* If mating array destination not provided */
     memFree (finematetab);                        /* Do not keep mating data array               */
 
diff --git a/src/libscotch/graph_match.c b/src/libscotch/graph_match.c
index a4ddde4..40b6e69 100644
--- a/src/libscotch/graph_match.c
+++ b/src/libscotch/graph_match.c
@@ -322,6 +322,8 @@ GraphCoarsenData * const          coarptr)        /* [norestrict] because of ret
     if (coarptr->retuval != 0) {
       if (thrdptr->finequeutab != NULL)           /* If someone else's allocation failed */
         memFree (thrdptr->finequeutab);           /* Free our own queue                  */
+      if (thrdnum == 0)                           /* Lock array is no longer of use      */
+        memFree (coarptr->finelocktax + coarptr->finegrafptr->baseval);
       return;
     }
   }
-- 
2.43.0


From cee2079ca4eba4613bd8f680926aca10c7bfa963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 37/58] fix: hmeshOrderNd and meshInduceSepa free their meshes,
 and nothing else, on error

---
 src/libscotch/hmesh_order_nd.c   | 3 ++-
 src/libscotch/mesh_induce_sepa.c | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/hmesh_order_nd.c b/src/libscotch/hmesh_order_nd.c
index 5f5762b..4818c22 100644
--- a/src/libscotch/hmesh_order_nd.c
+++ b/src/libscotch/hmesh_order_nd.c
@@ -156,6 +156,7 @@ const HmeshOrderNdParam * const   paraptr)
                       &nspmeshdat.parttax, (size_t) (vertnbr * sizeof (GraphPart)),
                       &nspmeshdat.frontab, (size_t) (vertnbr * sizeof (Gnum)), NULL) == NULL) {
     errorPrint ("hmeshOrderNd: out of memory (1)");
+    meshExit   (&nspmeshdat.m);
     return (1);
   }
   memSet (nspmeshdat.parttax, 0, vertnbr * sizeof (GraphPart)); /* Set all vertices to part 0 */
@@ -212,7 +213,7 @@ const HmeshOrderNdParam * const   paraptr)
 
     if (meshInduceSepa (&nspmeshdat.m, nspmeshdat.parttax, nspmeshdat.fronnbr, nspmeshdat.frontab, &indmeshdat.m) != 0) {
       errorPrint ("hmeshOrderNd: cannot build induced subgraph (1)");
-      memFree    (nspmeshdat.frontab);            /* Free remaining space */
+      vmeshExit  (&nspmeshdat);                   /* Free remaining space */
       return (1);
     }
     indmeshdat.vnohnbr = indmeshdat.m.vnodnbr;    /* Fill halo mesh structure of non-halo mesh */
diff --git a/src/libscotch/mesh_induce_sepa.c b/src/libscotch/mesh_induce_sepa.c
index 524f781..32f412d 100644
--- a/src/libscotch/mesh_induce_sepa.c
+++ b/src/libscotch/mesh_induce_sepa.c
@@ -204,6 +204,7 @@ Mesh * restrict const             indmeshptr)     /* Pointer to induced submesh
   }
   if (p == 0) {
     errorPrint ("meshInduceSepa: out of memory (2)"); /* Allocate induced mesh graph structure */
+    meshFree   (indmeshptr);
     return     (1);
   }
   memSet (orgindxtax, ~0, orgvertnbr    * sizeof (Gnum));
-- 
2.43.0


From d031bbeae5400aa0382ef2aeb0a3b29e437a32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 38/58] fix: kgraphMapRbVfloMerge and kgraphMapRbBgraph free
 their arrays when out of memory

---
 src/libscotch/kgraph_map_rb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7256549..7456971 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -518,6 +518,7 @@ const Anum                  vflonbr)              /*+ Number of fixed vertex loa
         if (domnnum >= mappptr->domnmax) {
           if (mapResize (mappptr, mappptr->domnmax + (mappptr->domnmax >> 2) + 8) != 0) { /* Increase size by 25% */
             errorPrint ("kgraphMapRbVfloMerge: out of memory (2)");
+            memFree    (hashtab);
             return (1);
           }
         }
@@ -604,6 +605,7 @@ Context * const                         contptr)  /*+ Execution context
 
   if ((veextax = (Gnum *) memAlloc (actgrafptr->s.vertnbr * sizeof (Gnum))) == NULL) {
     errorPrint ("kgraphMapRbBgraph: out of memory");
+    bgraphExit (actgrafptr);
     return (1);
   }
   veextax -= actgrafptr->s.baseval;
-- 
2.43.0


From 6b74a6a940dae2f1f7d6e6c0efc5f0194f92b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 39/58] fix: mapLoad frees its work arrays on bad input

---
 src/libscotch/mapping_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/mapping_io.c b/src/libscotch/mapping_io.c
index 2ea6a4c..2c64a9b 100644
--- a/src/libscotch/mapping_io.c
+++ b/src/libscotch/mapping_io.c
@@ -152,6 +152,7 @@ FILE * restrict const           stream)
     if ((intLoad (stream, &mapptab[mappnum].slblnum) != 1) ||
         (intLoad (stream, &mapptab[mappnum].tlblnum) != 1)) {
       errorPrint ("mapLoad: bad input (2)");
+      memFree    (mapptab);                       /* Free group leader */
       return (1);
     }
   }
-- 
2.43.0


From e794d48dc8dd47cae4f1e99de57e7c46e98b114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 40/58] fix: meshGraph and meshGraphDual free their hash table
 when out of memory

---
 src/libscotch/mesh_graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/mesh_graph.c b/src/libscotch/mesh_graph.c
index fba9556..9ac9836 100644
--- a/src/libscotch/mesh_graph.c
+++ b/src/libscotch/mesh_graph.c
@@ -136,6 +136,7 @@ Graph * restrict const        grafptr)            /*+ Graph to build +*/
   if ((grafptr->edgetax = memAlloc (edgemax * sizeof (Gnum))) == NULL) {
     errorPrint ("meshGraph: out of memory (2)");
     graphFree  (grafptr);
+    memFree    (hashtab);
     return (1);
   }
   grafptr->edgetax -= grafptr->baseval;
@@ -271,6 +272,7 @@ const Gnum                  noconbr)              /*+ number of common points to
   if ((grafptr->edgetax = memAlloc (edgemax * sizeof (Gnum))) == NULL) {
     errorPrint ("meshGraphDual: out of memory (2)");
     graphFree  (grafptr);
+    memFree    (hashtab);
     return (1);
   }
   grafptr->edgetax -= grafptr->baseval;
-- 
2.43.0


From f0f7940cb7ff505c324bb6ad0a31e8e7302daa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 41/58] fix: wgraphPartEs frees its data when the mapping of
 its graph fails

---
 src/libscotch/wgraph_part_es.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/wgraph_part_es.c b/src/libscotch/wgraph_part_es.c
index 0986624..f008f59 100644
--- a/src/libscotch/wgraph_part_es.c
+++ b/src/libscotch/wgraph_part_es.c
@@ -105,6 +105,8 @@ const WgraphPartEsParam * const paraptr)          /*+ Method parameters +*/
 
   if (kgraphMapSt (&actgrafdat, paraptr->strat) != 0) { /* Map active subgraph */
     errorPrint ("wgraphPartEs: cannot partition active graph");
+    kgraphExit (&actgrafdat);
+    memFree    (npfltab - 1);
     return (1);
   }
 
-- 
2.43.0


From 7977f1cb655b92dacebc2dd6294df6d39d0b20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 42/58] fix: kgraphMapRbBgraph frees the bipartition graph on
 error

---
 src/libscotch/kgraph_map_rb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/kgraph_map_rb.c b/src/libscotch/kgraph_map_rb.c
index 7456971..6830953 100644
--- a/src/libscotch/kgraph_map_rb.c
+++ b/src/libscotch/kgraph_map_rb.c
@@ -727,6 +727,8 @@ Context * const                         contptr)  /*+ Execution context
 fail :
   if ((o != 0) || (veexmsk == 0)) {               /* If external gain array is useless */
     memFree (veextax + actgrafptr->s.baseval);    /* Forget about it                   */
+    if (o != 0)                                   /* If error, free bipartition graph  */
+      bgraphExit (actgrafptr);
     return  (o);                                  /* Return error code                 */
   }
 
-- 
2.43.0


From 1e16dc22ee2ec940951d4a40f00ff4f980e634c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 43/58] fix: dgraphBuildHcub frees its arrays when parameters
 are inconsistent

---
 src/libscotch/dgraph_build_hcub.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_build_hcub.c b/src/libscotch/dgraph_build_hcub.c
index 794c5a6..d7f2c5d 100644
--- a/src/libscotch/dgraph_build_hcub.c
+++ b/src/libscotch/dgraph_build_hcub.c
@@ -159,6 +159,8 @@ const Gnum                  flagval)              /* Flags               */
       (reduglbtab[3] != - reduglbtab[2]) ||
       (reduglbtab[5] != - reduglbtab[4])) {
     errorPrint ("dgraphBuildHcub: inconsistent parameters");
+    memFree    (edgeloctax);
+    memFree    (vertloctax);
     return     (1);
   }
   vertloctax -= baseval;
-- 
2.43.0


From 46bc1d2ae84f3b8dd8f6526b4862b5e5443e88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 44/58] fix: dgraphRedist frees its arrays on error

---
 src/libscotch/dgraph_redist.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libscotch/dgraph_redist.c b/src/libscotch/dgraph_redist.c
index a541294..4425d02 100644
--- a/src/libscotch/dgraph_redist.c
+++ b/src/libscotch/dgraph_redist.c
@@ -345,6 +345,7 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
                      &dstveloloctax, (size_t) ( dstvelolocsiz                      * sizeof (Gnum)),
                      &dstvlblloctax, (size_t) ((dstvertlocnbr + dstvertlocdlt)     * sizeof (Gnum)), NULL) == NULL) { /* Vertex labels always present */
     errorPrint ("dgraphRedist2: out of memory (2)");
+    dstvertloctax = NULL;
     cheklocval = 1;
   }
   else if (dstvertloctax -= baseval,
@@ -356,6 +357,7 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
                           &dsnddattab,    (size_t) (dsnddatnbr * sizeof (Gnum)), /* TRICK: send space will be edgeloctab or edloloctab                 */
                           &drcvdattab,    (size_t) (drcvdatnbr * sizeof (Gnum)), NULL) == NULL) { /* TRICK: Remaining space will be freed              */
     errorPrint ("dgraphRedist2: out of memory (3)");
+    dstedgeloctax = NULL;
     cheklocval = 1;
   }
   else {
@@ -371,6 +373,11 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
   chekglbval = cheklocval;
 #endif /* SCOTCH_DEBUG_DGRAPH2 */
   if (chekglbval != 0) {
+    if (dstvertloctax != NULL) {
+      if (dstedgeloctax != NULL)
+        memFree (dstedgeloctax + baseval);
+      memFree (dstvertloctax + baseval);
+    }
     dgraphFree (dstgrafptr);
     return (1);
   }
@@ -496,6 +503,9 @@ Dgraph * restrict const     dstgrafptr)           /* Destination distributed gra
     procdspval = procdsptmp;
   }
 
+  dstgrafptr->baseval    = baseval;               /* Arrays belong to graph, even if building fails */
+  dstgrafptr->vertloctax = dstvertloctax;
+  dstgrafptr->edgeloctax = dstedgeloctax;
   if (dgraphBuild3 (dstgrafptr, baseval,
                     dstvertlocnbr, dstvertloctax, dstvertloctax + 1, dstveloloctax, dstvelolocsum, NULL, NULL,
                     dstedgelocnbr, dstedgelocsiz, dstedgeloctax, NULL, dstedloloctax, srcgrafptr->degrglbmax) != 0) {
-- 
2.43.0


From 6535e0ab4b2454b49123ca4bc92fbb354367d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 45/58] fix: SCOTCH_dgraphGrow releases its context when ghost
 edges cannot be computed

---
 src/libscotch/library_dgraph_grow.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_grow.c b/src/libscotch/library_dgraph_grow.c
index cb59dca..6290a6d 100644
--- a/src/libscotch/library_dgraph_grow.c
+++ b/src/libscotch/library_dgraph_grow.c
@@ -123,7 +123,8 @@ SCOTCH_Num * const          partgsttab)
 
   if (dgraphGhst (&grafdat) != 0) {               /* Compute ghost edge array if not already present */
     errorPrint (STRINGIFY (SCOTCH_dgraphGrow) ": cannot compute ghost edge array");
-    return (1);
+    dgraphExit (&grafdat);
+    goto abort;
   }
 
   bandpartgsttax = (partgsttab != NULL) ? (Gnum *) partgsttab - grafdat.baseval : NULL;
-- 
2.43.0


From db876da35c6034bee9cc5dfae5e7cfee09514b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 46/58] fix: hdgraphGather frees its arrays when the graph
 cannot be gathered

---
 src/libscotch/hdgraph_gather.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libscotch/hdgraph_gather.c b/src/libscotch/hdgraph_gather.c
index 89137a3..85a6516 100644
--- a/src/libscotch/hdgraph_gather.c
+++ b/src/libscotch/hdgraph_gather.c
@@ -142,6 +142,8 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
     edgenbr = dgrfptr->s.edgeglbnbr + 2 * reduglbtab[3]; /* Twice since halo vertices will be created for real  */
 
     cgrfptr->s.flagval = GRAPHFREEEDGE | GRAPHEDGEGROUP | GRAPHFREEVERT | GRAPHVERTGROUP; /* In case of premature freeing on error */
+    cgrfptr->s.baseval = dgrfptr->s.baseval;
+    cgrfptr->s.edgetax = NULL;
     recvcnttab = NULL;
     if (memAllocGroup ((void **) (void *)
                        &cgrfptr->s.verttax, (size_t) ((vertnbr + 1) * sizeof (Gnum)), /* Compact vertex array */
@@ -281,6 +283,11 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
   }
   else {
     errorPrint ("hdgraphGather: Not implemented"); /* Not really necessary as all Hdgraph structures created by Scotch itself are compact */
+    memFree    (verthaltax + dgrfptr->s.baseval);
+    if (cgrfptr != NULL) {
+      memFree    (recvcnttab);
+      hgraphExit (cgrfptr);
+    }
     return     (1);
   }
 
-- 
2.43.0


From 57872ff12b37342274eba7987b26fd1572555182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 47/58] fix: dgraphLoadDist leaves its arrays to the graph when
 building fails

---
 src/libscotch/dgraph_io_load.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dgraph_io_load.c b/src/libscotch/dgraph_io_load.c
index f539d71..b2c7d54 100644
--- a/src/libscotch/dgraph_io_load.c
+++ b/src/libscotch/dgraph_io_load.c
@@ -880,10 +880,13 @@ const DgraphFlag            flagval)              /* Graph loading flags
     return  (1);
   }
 
+  grafptr->flagval   |= DGRAPHFREETABS | DGRAPHVERTGROUP | DGRAPHEDGEGROUP;
+  grafptr->baseval    = baseval;                  /* Arrays belong to graph, even if building fails */
+  grafptr->vertloctax = vertloctax;
+  grafptr->edgeloctax = edgeloctax;
   o = dgraphBuild2 (grafptr, baseval,             /* Build distributed graph */
                     vertlocnbr, vertlocnbr, vertloctax, vertloctax + 1, veloloctax, velolocsum, NULL, vlblloctax,
                     edgelocnbr, edgelocnbr, edgeloctax, NULL, edloloctax, degrlocmax);
-  grafptr->flagval |= DGRAPHFREETABS | DGRAPHVERTGROUP | DGRAPHEDGEGROUP;
 
   return (o);
 }
-- 
2.43.0


From 48cc61e2a786a088dd789868c5d900e26a9ea147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 48/58] fix: hdgraphGather does not free arrays it could not
 allocate

---
 src/libscotch/hdgraph_gather.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/hdgraph_gather.c b/src/libscotch/hdgraph_gather.c
index 85a6516..3982372 100644
--- a/src/libscotch/hdgraph_gather.c
+++ b/src/libscotch/hdgraph_gather.c
@@ -187,11 +187,13 @@ Hgraph * restrict const     cgrfptr)              /* Centralized halo graph */
       cgrfptr->contptr   = dgrfptr->contptr;
     }
   }
-  if ((cheklocval == 0) &&
-      (memAllocGroup ((void **) (void *)
-                      &verthaltax, (size_t) (dgrfptr->vhallocnbr * sizeof (Gnum)),
-                      &edgehaltax, (size_t) (dgrfptr->ehallocnbr * sizeof (Gnum)), NULL) == NULL)) {
+  verthaltax = NULL;                              /* Halo arrays not allocated yet */
+  if (cheklocval != 0) ;                          /* Do nothing if error already   */
+  else if (memAllocGroup ((void **) (void *)
+                          &verthaltax, (size_t) (dgrfptr->vhallocnbr * sizeof (Gnum)),
+                          &edgehaltax, (size_t) (dgrfptr->ehallocnbr * sizeof (Gnum)), NULL) == NULL) {
     errorPrint ("hdgraphGather: out of memory (4)");
+    verthaltax = NULL;
     cheklocval = 1;
   }
   else {
-- 
2.43.0


From 15796eab1b671c510456df0cf39a305cd9b7b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 49/58] fix: threadContextInit frees its descriptors when a
 thread cannot be created

---
 src/libscotch/common_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libscotch/common_thread.c b/src/libscotch/common_thread.c
index 1134a2c..504a14b 100644
--- a/src/libscotch/common_thread.c
+++ b/src/libscotch/common_thread.c
@@ -148,6 +148,7 @@ const int * const           coretab)
       errorPrint ("threadContextInit: cannot create thread (%d)", thrdnum);
       contptr->thrdnbr = thrdnum;                 /* Terminate all threads that have been launched to date */
       threadContextExit (contptr);
+      memFree (desctab);                          /* All launched threads have copied their descriptor */
       return (1);
     }
   }
-- 
2.43.0


From 75b28fc5646bf956c9208c9a51cae6d5a912e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 50/58] fix: dgraphSave frees its label array when the header
 cannot be written

---
 src/libscotch/dgraph_io_save.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libscotch/dgraph_io_save.c b/src/libscotch/dgraph_io_save.c
index 78b19d5..86e8228 100644
--- a/src/libscotch/dgraph_io_save.c
+++ b/src/libscotch/dgraph_io_save.c
@@ -128,6 +128,8 @@ FILE * const                stream)
                (Gnum) grafptr->baseval,
                propstr) == EOF) {
     errorPrint ("dgraphSave: bad output (1)");
+    if (vlblgsttax != NULL)
+      memFree (vlblgsttax + grafptr->baseval);
     return     (1);
   }
 
-- 
2.43.0


From d3342eb4e0ad4ffd227400438535086f9e8ea2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 51/58] fix: dorderSaveTree frees its label array when the
 ordering cannot be initialized

---
 src/libscotch/dorder_io_tree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/dorder_io_tree.c b/src/libscotch/dorder_io_tree.c
index f40fd19..1d180df 100644
--- a/src/libscotch/dorder_io_tree.c
+++ b/src/libscotch/dorder_io_tree.c
@@ -142,8 +142,11 @@ int                        (* funcptr) (const Order * restrict const, const Gnum
     return     (1);
   }
 #endif /* SCOTCH_DEBUG_DORDER1 */
-  if (cheklocval != 0)
+  if (cheklocval != 0) {
+    if (vlbltab != NULL)
+      memFree (vlbltab);
     return (1);
+  }
 
   if (protnum == ordeptr->proclocnum) {
     cheklocval = dorderGather (ordeptr, &corddat); /* Need inverse permutation too */
-- 
2.43.0


From fb254357a23f8d53603d343f9d1c14352cd27624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 52/58] fix: vmeshSeparateGr frees the graph it builds from its
 mesh

---
 src/libscotch/vmesh_separate_gr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libscotch/vmesh_separate_gr.c b/src/libscotch/vmesh_separate_gr.c
index 2570516..c301a2a 100644
--- a/src/libscotch/vmesh_separate_gr.c
+++ b/src/libscotch/vmesh_separate_gr.c
@@ -111,6 +111,7 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
 
   if (vgraphSeparateSt (&grafdat, paraptr->stratptr) != 0) {
     errorPrint ("vmeshSeparateGr: cannot separate graph");
+    graphExit  (&grafdat.s);
     return (1);
   }
 
@@ -124,6 +125,8 @@ const VmeshSeparateGrParam * restrict const paraptr) /*+ Method parameters    +*
   meshptr->ncmpsize[1] = grafdat.compsize[1];
   meshptr->fronnbr     = grafdat.fronnbr;
 
+  graphExit (&grafdat.s);                         /* Part and frontier arrays belong to mesh */
+
   for (velmnum = meshptr->m.velmbas, ecmpsize1 = 0;
        velmnum < meshptr->m.velmnnd; velmnum ++) { /* Compute part of all elements */
     Gnum                              eelmnum;
-- 
2.43.0


From 8ace559a3c47dd2f76eda756f474511da2c17b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 53/58] fix: kgraphMapBd frees its band graph when out of
 memory

---
 src/libscotch/kgraph_map_bd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libscotch/kgraph_map_bd.c b/src/libscotch/kgraph_map_bd.c
index 3b0da53..f36df39 100644
--- a/src/libscotch/kgraph_map_bd.c
+++ b/src/libscotch/kgraph_map_bd.c
@@ -266,7 +266,9 @@ const KgraphMapBdParam * const      paraptr)      /*+ Method parameters +*/
   }
 
   if ((orgflagtab = memAlloc (kgraphMapBdFlagSize (orggrafptr->s.vertnnd) * sizeof (int))) == NULL) {
-    errorPrint ("kgraphMapBd: out of memory (2)");
+    errorPrint  ("kgraphMapBd: out of memory (2)");
+    memFree     (bndvnumtax + bndgrafdat.s.baseval);
+    kgraphExit  (&bndgrafdat);
     return (1);
   }
 
-- 
2.43.0


From 3a8e3a8fee7cf7ca39fccf48328f34630626e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 54/58] fix: xD-mesh and torus architectures must have at least
 one dimension

---
 src/libscotch/arch_mesh.c    | 1 +
 src/libscotch/library_arch.c | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libscotch/arch_mesh.c b/src/libscotch/arch_mesh.c
index 0cc08ce..7750494 100644
--- a/src/libscotch/arch_mesh.c
+++ b/src/libscotch/arch_mesh.c
@@ -632,6 +632,7 @@ FILE * restrict const       stream)
 #endif /* SCOTCH_DEBUG_ARCH1 */
 
   if ((intLoad (stream, &archptr->dimnnbr) != 1) ||
+      (archptr->dimnnbr < 1)                ||
       (archptr->dimnnbr > ARCHMESHDIMNMAX)) {
     errorPrint ("archMeshXArchLoad: bad input (1)");
     return     (1);
diff --git a/src/libscotch/library_arch.c b/src/libscotch/library_arch.c
index 914d199..01f4cd4 100644
--- a/src/libscotch/library_arch.c
+++ b/src/libscotch/library_arch.c
@@ -415,8 +415,8 @@ const SCOTCH_Num * const    dimntab)              /*+ Array of dimensions
     errorPrint (STRINGIFY (SCOTCH_archMeshX) ": internal error");
     return (1);
   }
-  if (dimnnbr > ARCHMESHDIMNMAX) {
-    errorPrint (STRINGIFY (SCOTCH_archMeshX) ": too many dimensions");
+  if ((dimnnbr < 1) || (dimnnbr > ARCHMESHDIMNMAX)) {
+    errorPrint (STRINGIFY (SCOTCH_archMeshX) ": invalid number of dimensions");
     return (1);
   }
 
@@ -621,8 +621,8 @@ const SCOTCH_Num * const    dimntab)              /*+ Array of dimensions
     errorPrint (STRINGIFY (SCOTCH_archTorusX) ": internal error");
     return (1);
   }
-  if (dimnnbr > ARCHMESHDIMNMAX) {
-    errorPrint (STRINGIFY (SCOTCH_archTorusX) ": too many dimensions");
+  if ((dimnnbr < 1) || (dimnnbr > ARCHMESHDIMNMAX)) {
+    errorPrint (STRINGIFY (SCOTCH_archTorusX) ": invalid number of dimensions");
     return (1);
   }
 
-- 
2.43.0


From ee92ff480e921ef8e0ceb5ad80fedf05c0400e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 55/58] fix: gout does not read before its color tables when a
 mapping has negative part numbers

---
 src/scotch/gout_o.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scotch/gout_o.c b/src/scotch/gout_o.c
index e9f790a..aa3465f 100644
--- a/src/scotch/gout_o.c
+++ b/src/scotch/gout_o.c
@@ -167,7 +167,7 @@ outColorBlw (
 const SCOTCH_Num            labl,
 double                      color[])
 {
-  if (labl == (-1)) {
+  if (labl < 0) {                                 /* If vertex not mapped */
     color[0] =
     color[1] =
     color[2] = 1.0L;
@@ -184,7 +184,7 @@ outColorColor (
 const SCOTCH_Num            labl,
 double                      color[])
 {
-  if (labl == (-1)) {
+  if (labl < 0) {                                 /* If vertex not mapped */
     color[0] =
     color[1] =
     color[2] = 1.0L;
-- 
2.43.0


From b0ee02a727ddcc6b4a73b2e878a9b4b7b99406e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 56/58] fix: gout reports unterminated option arguments instead
 of dereferencing NULL

---
 src/scotch/gout_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scotch/gout_c.c b/src/scotch/gout_c.c
index b376707..17a1f44 100644
--- a/src/scotch/gout_c.c
+++ b/src/scotch/gout_c.c
@@ -696,7 +696,7 @@ char * const                string)              /* Pointer to the string to par
     argbeg ++;                                   /* Point to argument beginning       */
     do {                                         /* For all arguments                 */
       argend = strpbrk (argbeg, ",}\0");         /* Search for the argument end       */
-      if (*argend == '\0')                       /* If there is no end delimiter      */
+      if (argend == NULL)                         /* If there is no end delimiter      */
         return (3);                              /* Return the syntax error value     */
 
       arglen = ((argend - argbeg) < 127)         /* Get argument bounded length */
-- 
2.43.0


From 4cda77c612eefb4a36994178b236a985370ec2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:05 +0000
Subject: [PATCH 57/58] fix: text of ratios always fits in the arrays of the
 strategy builders

---
 src/libscotch/library_dgraph_map.c     | 8 ++++----
 src/libscotch/library_dgraph_order.c   | 2 +-
 src/libscotch/library_graph_map.c      | 8 ++++----
 src/libscotch/library_graph_order.c    | 2 +-
 src/libscotch/library_graph_part_ovl.c | 2 +-
 src/libscotch/library_mesh_order.c     | 2 +-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libscotch/library_dgraph_map.c b/src/libscotch/library_dgraph_map.c
index 9af767b..c56adc3 100644
--- a/src/libscotch/library_dgraph_map.c
+++ b/src/libscotch/library_dgraph_map.c
@@ -292,8 +292,8 @@ const SCOTCH_Num            partnbr,              /*+ Number of expected parts
 const double                kbalval)              /*+ Desired imbalance ratio         +*/
 {
   char                bufftab[8192];              /* Should be enough */
-  char                bbaltab[32];
-  char                kbaltab[32];
+  char                bbaltab[320];
+  char                kbaltab[320];
   char                verttab[32];
   Gnum                vertnbr;
   char *              difpptr;
@@ -370,8 +370,8 @@ const double                densval,              /*+ Threshold density value
 const double                bbalval)              /*+ Maximum imbalance ratio         +*/
 {
   char                bufftab[8192];              /* Should be enough */
-  char                bbaltab[32];
-  char                denstab[32];
+  char                bbaltab[320];
+  char                denstab[320];
   char                pwgttab[32];
   char                verttab[32];
   Gnum                vertnbr;
diff --git a/src/libscotch/library_dgraph_order.c b/src/libscotch/library_dgraph_order.c
index e1bd976..205c8a7 100644
--- a/src/libscotch/library_dgraph_order.c
+++ b/src/libscotch/library_dgraph_order.c
@@ -268,7 +268,7 @@ const SCOTCH_Num            levlnbr,              /*+ Number of nested dissectio
 const double                balrat)               /*+ Desired imbalance ratio            +*/
 {
   char                bufftab[8192];              /* Should be enough */
-  char                bbaltab[32];
+  char                bbaltab[320];
   char                levltab[32];
   char                verttab[32];
   Gnum                vertnbr;
diff --git a/src/libscotch/library_graph_map.c b/src/libscotch/library_graph_map.c
index e6d0a01..5f12c87 100644
--- a/src/libscotch/library_graph_map.c
+++ b/src/libscotch/library_graph_map.c
@@ -656,8 +656,8 @@ const SCOTCH_Num            partnbr,              /*+ Number of expected parts/s
 const double                kbalval)              /*+ Desired imbalance ratio         +*/
 {
   char                bufftab[8192];              /* Should be enough */
-  char                bbaltab[64];
-  char                kbaltab[64];
+  char                bbaltab[320];
+  char                kbaltab[320];
   char                kmovtab[64];
   char                mvrttab[64];
   const char *        difkptr;
@@ -725,9 +725,9 @@ const double                densval,              /*+ Threshold density value +*
 const double                bbalval)              /*+ Maximum imbalance ratio +*/
 {
   char                bufftab[8192];              /* Should be enough */
-  char                bbaltab[32];
+  char                bbaltab[320];
   char                pwgttab[32];
-  char                denstab[32];
+  char                denstab[320];
   char *              difsptr;
   char *              exasptr;
 
diff --git a/src/libscotch/library_graph_order.c b/src/libscotch/library_graph_order.c
index 2b164b2..a6c064e 100644
--- a/src/libscotch/library_graph_order.c
+++ b/src/libscotch/library_graph_order.c
@@ -506,7 +506,7 @@ const double                balrat)               /*+ Desired imbalance ratio
 {
   char                bufftab[8192];              /* Should be enough */
   char                levltab[32];
-  char                bbaltab[32];
+  char                bbaltab[320];
   char *              sepaptr;
   char *              tstsptr;
   char *              oleaptr;
diff --git a/src/libscotch/library_graph_part_ovl.c b/src/libscotch/library_graph_part_ovl.c
index be09b2b..a834df7 100644
--- a/src/libscotch/library_graph_part_ovl.c
+++ b/src/libscotch/library_graph_part_ovl.c
@@ -163,7 +163,7 @@ const SCOTCH_Num            partnbr,              /*+ Number of expected parts/s
 const double                balrat)               /*+ Desired imbalance ratio       +*/
 {
   char                bufftab[8192];              /* Should be enough */
-  char                kbaltab[64];
+  char                kbaltab[320];
 
   sprintf (kbaltab, "%lf", balrat);
 
diff --git a/src/libscotch/library_mesh_order.c b/src/libscotch/library_mesh_order.c
index ab25d70..dc10b76 100644
--- a/src/libscotch/library_mesh_order.c
+++ b/src/libscotch/library_mesh_order.c
@@ -408,7 +408,7 @@ const SCOTCH_Num            flagval,              /*+ Desired characteristics +*
 const double                balrat)               /*+ Desired imbalance ratio +*/
 {
   char                bufftab[8192];              /* Should be enough */
-  char                bbaltab[32];
+  char                bbaltab[320];
 
   strcpy (bufftab, "c{rat=0.7,cpr=n{sep=/(vnod>120)?m{vnod=100,low=h{pass=10},asc=f{bal=<BBAL>}}:;,ole=v{strat=d{cmin=0,cmax=10000000,frat=0}},ose=g},unc=n{sep=/(vnod>120)?m{vnod=100,low=h{pass=10},asc=f{bal=<BBAL>}}:;,ole=v{strat=d{cmin=0,cmax=10000000,frat=0}},ose=g}}");
 
-- 
2.43.0


From 9e4a3f9bde751245eed1c499898980550fd4c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:19 +0000
Subject: [PATCH 58/58] fix: buffer of SCOTCH_stratDgraphClusterBuild holds the
 longest texts of ratios

---
 src/libscotch/library_dgraph_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libscotch/library_dgraph_map.c b/src/libscotch/library_dgraph_map.c
index c56adc3..658eb04 100644
--- a/src/libscotch/library_dgraph_map.c
+++ b/src/libscotch/library_dgraph_map.c
@@ -369,7 +369,7 @@ const SCOTCH_Num            pwgtval,              /*+ Threshold part load
 const double                densval,              /*+ Threshold density value         +*/
 const double                bbalval)              /*+ Maximum imbalance ratio         +*/
 {
-  char                bufftab[8192];              /* Should be enough */
+  char                bufftab[16384];             /* Should be enough */
   char                bbaltab[320];
   char                denstab[320];
   char                pwgttab[32];
-- 
2.43.0

