From 2e4a3aa3c83de17ded34d61c06d046a67698b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 01/62] fix: MMGS_Set_edges read references one entry past the
 given array

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 71cefa6..52da79a 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -670,7 +670,7 @@ int MMGS_Set_edges(MMG5_pMesh mesh, MMG5_int *edges, MMG5_int *refs) {
     mesh->edge[i].a    = edges[j];
     mesh->edge[i].b    = edges[j+1];
     if ( refs != NULL )
-      mesh->edge[i].ref  = refs[i];
+      mesh->edge[i].ref  = refs[i-1];
     mesh->edge[i].tag |= MG_REF;
   }
 
-- 
2.43.0


From 84c1cd51efc4545dd940702f8294c0d40ec71c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 02/62] fix: do not build the metric of an open boundary point
 from its null second normal

---
 src/common/mettools.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/mettools.c b/src/common/mettools.c
index 55e5ecf..aa24f28 100644
--- a/src/common/mettools.c
+++ b/src/common/mettools.c
@@ -697,7 +697,8 @@ int MMG5_buildridmet(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int np0,
   ps1 = ux*n1[0] + uy*n1[1] + uz*n1[2];
   ps2 = ux*n2[0] + uy*n2[1] + uz*n2[2];
 
-  if ( fabs(ps2)<fabs(ps1) ) {
+  /* Remark: along an open boundary, there is only one normal (n2 is null) */
+  if ( fabs(ps2)<fabs(ps1) && (n2[0]*n2[0] + n2[1]*n2[1] + n2[2]*n2[2] > 0.) ) {
     n1 = &go->n2[0];
     dv = m[2];
     dn = m[4];
-- 
2.43.0


From 9d7c3542f35a73073b44ccbf3768a7488c1d987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 03/62] fix: mmg2d stores each internal required or open edge
 once in the final edge table

---
 src/mmg2d/hash_2d.c | 147 +++++++++++++++++++++++++++-----------------
 1 file changed, 89 insertions(+), 58 deletions(-)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 8d688fa..43eb41e 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -516,6 +516,80 @@ int MMG2D_bdryEdge(MMG5_pMesh mesh) {
 }
 
 
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param tag tag of an edge.
+ *
+ * \return 1 if an edge internal to a subdomain and having tag \a tag must be
+ * stored in the final edge table, 0 otherwise.
+ *
+ */
+static inline
+int MMG2D_isTagToPack(MMG5_pMesh mesh,uint16_t tag) {
+  return MG_SIN(tag) || ( mesh->info.opnbdy && (tag & (MG_REF+MG_BDY)) );
+}
+
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param k index of a triangle.
+ * \param i index of the edge in the triangle.
+ *
+ * \return 1 if the edge \a i of the triangle \a k must be stored in the final
+ * edge table from this triangle, 0 otherwise.
+ *
+ * An edge shared by two triangles is stored from only one of them.
+ *
+ */
+static inline
+int MMG2D_isTriaEdgeToPack(MMG5_pMesh mesh,MMG5_int k,int8_t i) {
+  MMG5_pTria pt,pt1;
+  MMG5_int   adj,iel;
+
+  adj = mesh->adja[3*(k-1)+1+i];
+  iel = adj / 3;
+  if ( !iel ) return 1;
+
+  pt  = &mesh->tria[k];
+  pt1 = &mesh->tria[iel];
+  if ( pt->ref != pt1->ref ) return ( pt->ref > pt1->ref );
+
+  if ( !MMG2D_isTagToPack(mesh,pt->tag[i]) ) return 0;
+
+  return ( k < iel ) || !MMG2D_isTagToPack(mesh,pt1->tag[adj%3]);
+}
+
+/**
+ * \param mesh pointer to the mesh structure.
+ * \param k index of a quadrangle.
+ * \param i index of the edge in the quadrangle.
+ *
+ * \return 1 if the edge \a i of the quadrangle \a k must be stored in the final
+ * edge table from this quadrangle, 0 otherwise.
+ *
+ * An edge shared by two quadrangles is stored from only one of them, an edge
+ * shared by a triangle and a quadrangle is stored from the triangle.
+ *
+ */
+static inline
+int MMG2D_isQuadEdgeToPack(MMG5_pMesh mesh,MMG5_int k,int8_t i) {
+  MMG5_pQuad pq,pq1;
+  MMG5_int   adj,iel;
+
+  adj = mesh->adjq[4*(k-1)+1+i];
+  if ( adj < 0 ) return 0;
+
+  iel = adj / 4;
+  if ( !iel ) return 1;
+
+  pq  = &mesh->quadra[k];
+  pq1 = &mesh->quadra[iel];
+  if ( pq->ref != pq1->ref ) return ( pq->ref > pq1->ref );
+
+  if ( !MMG2D_isTagToPack(mesh,pq->tag[i]) ) return 0;
+
+  return ( k < iel ) || !MMG2D_isTagToPack(mesh,pq1->tag[adj%4]);
+}
+
 /**
  * \param mesh pointer to the mesh structure.
  * \param sol pointer to a solution structure.
@@ -528,11 +602,11 @@ int MMG2D_bdryEdge(MMG5_pMesh mesh) {
  *
  */
 int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
-  MMG5_pTria         pt,ptnew,pt1;
+  MMG5_pTria         pt,ptnew;
   MMG5_pQuad         pq,pq1;
   MMG5_pEdge         ped;
   MMG5_pPoint        ppt,pptnew;
-  MMG5_int           np,ned,nt,k,iel,nbl,isol,isolnew,memWarn,nc;
+  MMG5_int           np,ned,nt,k,nbl,isol,isolnew,memWarn,nc;
   MMG5_int           iadr,iadrnew,iadrv,*adjav,*adja,*adjanew,voy;
   int8_t             i,i1,i2;
 
@@ -580,62 +654,35 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   }
 
   mesh->na = 0;
-  /** Count edges stored in triangles */
+  /** Untag the edges that were required by the nosurf option only */
   for (k=1; k<=mesh->nt; k++) {
     pt = &mesh->tria[k];
     if ( !MG_EOK(pt) ) continue;
-    adja = &mesh->adja[3*(k-1)+1];
 
     for (i=0; i<3; i++) {
-      iel = adja[i] / 3;
-
       if ( pt->tag[i] & MG_NOSURF ) {
         pt->tag[i] &= ~MG_REQ;
         pt->tag[i] &= ~MG_NOSURF;
       }
+    }
+  }
 
-      pt1 = &mesh->tria[iel];
-      if ( (!iel) || (pt->ref > pt1->ref) ) {
-        ++mesh->na;
-      }
-      else if ( (pt->ref==pt1->ref) && MG_SIN(pt->tag[i]) ) {
-        ++mesh->na;
-      }
-      else if ( mesh->info.opnbdy ) {
-        if ( (pt->tag[i] & MG_REF) || pt->tag[i] & MG_BDY ) {
-          assert ( pt->tag[i] & (MG_REF+MG_BDY) );
-          ++mesh->na;
-        }
-      }
+  /** Count edges stored in triangles */
+  for (k=1; k<=mesh->nt; k++) {
+    pt = &mesh->tria[k];
+    if ( !MG_EOK(pt) ) continue;
+
+    for (i=0; i<3; i++) {
+      if ( MMG2D_isTriaEdgeToPack(mesh,k,i) ) ++mesh->na;
     }
   }
   /** Count edges stored in quadrangles */
   for (k=1; k<=mesh->nquad; k++) {
     pq = &mesh->quadra[k];
     if ( !MG_EOK(pq) ) continue;
-    adja = &mesh->adjq[4*(k-1)+1];
 
     for (i=0; i<4; i++) {
-      iel = adja[i] / 4;
-
-      if ( iel < 0) {
-        /* Edge at the interface between a quad and a tria: treated from the tria */
-        continue;
-      }
-
-      pq1 = &mesh->quadra[iel];
-      if ( (!iel) || (pq->ref > pq1->ref) ) {
-        ++mesh->na;
-      }
-      else if ( (pq->ref==pq1->ref) && MG_SIN(pq->tag[i]) ) {
-        ++mesh->na;
-      }
-      else if ( mesh->info.opnbdy ) {
-        if ( (pq->tag[i] & MG_REF) || pq->tag[i] & MG_BDY ) {
-          assert ( pq->tag[i] & (MG_REF+MG_BDY) );
-          ++mesh->na;
-        }
-      }
+      if ( MMG2D_isQuadEdgeToPack(mesh,k,i) ) ++mesh->na;
     }
   }
 
@@ -668,16 +715,11 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
         pt = &mesh->tria[k];
         if ( !MG_EOK(pt) ) continue;
         ++nt;
-        adja = &mesh->adja[3*(k-1)+1];
 
         for (i=0; i<3; i++) {
           i1 = MMG5_inxt2[i];
           i2 = MMG5_iprv2[i];
-          iel = adja[i] / 3;
-          pt1 = &mesh->tria[iel];
-          if ( !iel || (pt->ref > pt1->ref) ||
-               ((pt->ref==pt1->ref) && MG_SIN(pt->tag[i])) ||
-               (mesh->info.opnbdy && ((pt->tag[i] & MG_REF) || (pt->tag[i] & MG_BDY)))) {
+          if ( MMG2D_isTriaEdgeToPack(mesh,k,i) ) {
             ++ned;
             ped = &mesh->edge[ned];
             ped->a = pt->v[i1];
@@ -697,23 +739,12 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
         pq = &mesh->quadra[k];
         if ( !MG_EOK(pq) ) continue;
         ++nt;
-        adja = &mesh->adjq[4*(k-1)+1];
 
         for (i=0; i<4; i++) {
           i1 = MMG2D_idir_q[i][0];
           i2 = MMG2D_idir_q[i][1];
 
-          iel = adja[i] / 4;
-
-          if ( iel < 0) {
-            /* Edge at the interface between a quad and a tria: treated from the tria */
-            continue;
-          }
-
-          pq1 = &mesh->quadra[iel];
-          if ( !iel || (pq->ref > pq1->ref) ||
-               ((pq->ref==pq1->ref) && MG_SIN(pq->tag[i])) ||
-               (mesh->info.opnbdy && ((pq->tag[i] & MG_REF) || (pq->tag[i] & MG_BDY)))) {
+          if ( MMG2D_isQuadEdgeToPack(mesh,k,i) ) {
             ++ned;
             ped = &mesh->edge[ned];
             ped->a = pq->v[i1];
-- 
2.43.0


From 46c5543fe743cf1ba5e08da28d0217fd09c3994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 04/62] fix: do not revive required vertices of removed
 subdomains as isolated points

---
 src/common/tools.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/tools.c b/src/common/tools.c
index 7578d6f..fe4ae73 100644
--- a/src/common/tools.c
+++ b/src/common/tools.c
@@ -997,7 +997,11 @@ void MMG5_mark_verticesAsUnused ( MMG5_pMesh mesh ) {
 
   for ( k=1; k<=mesh->np; k++ ) {
     ppt = &mesh->point[k];
-    if ( !MG_VOK(ppt) )  continue;
+    if ( !MG_VOK(ppt) ) {
+      /* already unused point: it must not be preserved as an isolated one */
+      ppt->flag = 1;
+      continue;
+    }
 
     /* reset ppt->flag to detect isolated points in keep_subdomainElts */
     ppt->flag = 0;
-- 
2.43.0


From 65d8fa07b94afb4ebc174afd96b313233c8c31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 05/62] fix: a level-set crossing only unsplit entities is not
 a discretization failure

---
 src/mmg2d/mmg2d6.c | 2 +-
 src/mmg3d/mmg3d2.c | 2 +-
 src/mmgs/mmgs2.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/mmg2d6.c b/src/mmg2d/mmg2d6.c
index 23e32bb..a1b17b1 100644
--- a/src/mmg2d/mmg2d6.c
+++ b/src/mmg2d/mmg2d6.c
@@ -196,7 +196,7 @@ int MMG2D_cuttri(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 
 }
 
diff --git a/src/mmg3d/mmg3d2.c b/src/mmg3d/mmg3d2.c
index 094f96b..4d2904b 100644
--- a/src/mmg3d/mmg3d2.c
+++ b/src/mmg3d/mmg3d2.c
@@ -1242,7 +1242,7 @@ int MMG3D_cuttet_ls(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 }
 
 
diff --git a/src/mmgs/mmgs2.c b/src/mmgs/mmgs2.c
index 0b68f15..5d963ce 100644
--- a/src/mmgs/mmgs2.c
+++ b/src/mmgs/mmgs2.c
@@ -224,7 +224,7 @@ static int MMGS_cuttri(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     mesh->point[k].flag = 0;
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 
 }
 
-- 
2.43.0


From dc737ebfab186b50458b272041d5eb4f51e775d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:38 +0000
Subject: [PATCH 06/62] fix: check the bounds of the multimaterial lookup table

---
 src/common/mmg2.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index c278029..1252ef0 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -68,6 +68,8 @@ static int MMG5_InvMat_code(int k,int attr) {
  */
 static int MMG5_InvMat_getIndex(MMG5_pInvMat pim,int ref) {
   int key = MMG5_InvMat_key(pim,ref);
+  /* Material outside of the range of references of the table */
+  if ( key < 0 || key >= pim->size ) return -1;
   /* The parent index is stored as 4*(k+1) */
   return (pim->lookup[key] / 4 - 1);
 }
@@ -83,6 +85,8 @@ static int MMG5_InvMat_getIndex(MMG5_pInvMat pim,int ref) {
  */
 static int MMG5_InvMat_getAttrib(MMG5_pInvMat pim,int ref) {
   int key = MMG5_InvMat_key(pim,ref);
+  /* Material outside of the range of references of the table: not split */
+  if ( key < 0 || key >= pim->size ) return 0;
   /* The nosplit/split/plus/minus attribute is stored as the rest of the
    * integer division. */
   return (pim->lookup[key] % 4);
-- 
2.43.0


From 1b5ee8e229e44a6eb0446a2c6ae22e97aa635090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 07/62] fix: prism and quadrilateral getters keep no stale
 counter from a previous mesh

---
 src/mmg2d/API_functions_2d.c | 3 +++
 src/mmg3d/API_functions_3d.c | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 3205094..76bd671 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1179,6 +1179,9 @@ int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
       *isRequired = 0;
   }
 
+  /* The last entity has been got: be ready for another mesh */
+  if ( nqi == mesh->nquad ) nqi = 0;
+
   return 1;
 }
 
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index d862907..15e2db3 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -797,6 +797,9 @@ int MMG3D_Get_prism(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, M
       *isRequired = 0;
   }
 
+  /* The last entity has been got: be ready for another mesh */
+  if ( npri == mesh->nprism ) npri = 0;
+
   return 1;
 }
 
@@ -1048,6 +1051,9 @@ int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
       *isRequired = 0;
   }
 
+  /* The last entity has been got: be ready for another mesh */
+  if ( nqi == mesh->nquad ) nqi = 0;
+
   return 1;
 }
 
-- 
2.43.0


From 593e2a1d3b121badd7f1854ade0f195275a0df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 08/62] fix: a surface level-set crossing only unsplit entities
 is not a discretization failure (mmg3d)

---
 src/mmg3d/mmg3d2s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index e3919cd..b76b47b 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -405,7 +405,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
     fprintf(stdout,"     %7" MMG5_PRId " splitted\n",ns);
 
   MMG5_DEL_MEM(mesh,hash.item);
-  return ns;
+  return 1;
 }
 
 /**
-- 
2.43.0


From 5216fa90e47e7f63c2490ea72186487669a7a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 09/62] fix: MMG3D_Get_prisms swapped the second and third
 vertices of the prisms

---
 src/mmg3d/API_functions_3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 15e2db3..ba446b3 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -842,8 +842,8 @@ int  MMG3D_Get_prisms(MMG5_pMesh mesh, MMG5_int *prisms, MMG5_int *refs, int * a
     j = (i-1)*6;
     pp = &mesh->prism[i];
     prisms[j]   = pp->v[0];
-    prisms[j+2] = pp->v[1];
-    prisms[j+1] = pp->v[2];
+    prisms[j+1] = pp->v[1];
+    prisms[j+2] = pp->v[2];
     prisms[j+3] = pp->v[3];
     prisms[j+4] = pp->v[4];
     prisms[j+5] = pp->v[5];
-- 
2.43.0


From a1e89b2907a350b36c2494c01ab86c02a2f4b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:27 +0000
Subject: [PATCH 10/62] fix: opnbdy mode kept interfaces between references
 only if the user's triangle faced the lower ref

---
 src/mmg3d/hash_3d.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mmg3d/hash_3d.c b/src/mmg3d/hash_3d.c
index f0cfef1..45fcc37 100644
--- a/src/mmg3d/hash_3d.c
+++ b/src/mmg3d/hash_3d.c
@@ -1321,9 +1321,12 @@ int MMG5_bdryTria(MMG5_pMesh mesh, MMG5_int ntmesh) {
            * call) */
           if ( adj && ( pt->ref <= pt1->ref) )  continue;
         } else {
-          /* info stored in xtetra and opnbdy mode */
-          if ( adj && ( (pt->ref<pt1->ref) || (!pt->xt) ||
-                        (!(pxt->ftag[i] & MG_BDY)) || (!MG_GET(pxt->ori,i) ) ) )
+          /* info stored in xtetra and opnbdy mode: an interface between two
+           * references is always a boundary (stored from the tetra of higher
+           * ref, whatever the orientation of the user's triangle) */
+          if ( adj && ( (pt->ref<pt1->ref) || (pt->ref==pt1->ref && (
+                          (!pt->xt) || (!(pxt->ftag[i] & MG_BDY)) ||
+                          (!MG_GET(pxt->ori,i)) ) ) ) )
             continue;
         }
 
-- 
2.43.0


From 27f967eeb865fa4f411119510e9336e987026765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 11/62] fix: MMG5_split6 read the face tags of an uninitialised
 xtetra

---
 src/mmg3d/split_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/split_3d.c b/src/mmg3d/split_3d.c
index d48af88..890f4c4 100644
--- a/src/mmg3d/split_3d.c
+++ b/src/mmg3d/split_3d.c
@@ -4518,7 +4518,7 @@ int MMG5_split6(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,MMG5_int vx[6],int8_t m
 
   /* Store face tags and refs from split tetra*/
   for (i=0; i<4; i++) {
-    ftag[i] = (xt.ftag[i] & ~MG_REF);
+    ftag[i] = (xt0.ftag[i] & ~MG_REF);
   }
 
   /* Modify first tetra */
-- 
2.43.0


From 6633281d2cec16cd044206aa54f4b7cefecaa57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 12/62] fix: mmg2d updates the number of metric values when
 packing a level-set mesh

---
 src/mmg2d/hash_2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 43eb41e..080d525 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -882,6 +882,7 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   }
   mesh->np = np;
   if ( sol && sol->m ) sol->np  = np;
+  if ( met && met->m ) met->np  = np;
 
   /** Reset ppt->tmp field */
   for(k=1 ; k<=mesh->np ; k++)
-- 
2.43.0


From e17dc8bf67854dc1051274699aa2c807f6d18ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 13/62] fix: tangent of user-given ridges lying on flat areas

---
 src/mmg3d/analys_3d.c | 10 ++++++----
 src/mmgs/analys_s.c   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/mmg3d/analys_3d.c b/src/mmg3d/analys_3d.c
index 7f3c94d..051dd1e 100644
--- a/src/mmg3d/analys_3d.c
+++ b/src/mmg3d/analys_3d.c
@@ -771,15 +771,17 @@ int MMG5_norver(MMG5_pMesh mesh) {
         ppt->n[1] = pxp->n1[2]*pxp->n2[0] - pxp->n1[0]*pxp->n2[2];
         ppt->n[2] = pxp->n1[0]*pxp->n2[1] - pxp->n1[1]*pxp->n2[0];
         dd = ppt->n[0]*ppt->n[0] + ppt->n[1]*ppt->n[1] + ppt->n[2]*ppt->n[2];
-        if ( dd > MMG5_EPSD2 ) {
+        if ( dd > MMG5_EPS ) {
           dd = 1.0 / sqrt(dd);
           ppt->n[0] *= dd;
           ppt->n[1] *= dd;
           ppt->n[2] *= dd;
+          ppt->flag = mesh->base;
+          ++nt;
+          continue;
         }
-        ppt->flag = mesh->base;
-        ++nt;
-        continue;
+        /* Flat ridge (user-provided): n1 and n2 are parallel, the tangent has to
+         * be computed from the ridge edges */
       }
 
       /* compute tgte */
diff --git a/src/mmgs/analys_s.c b/src/mmgs/analys_s.c
index 75adaa8..2a4a079 100644
--- a/src/mmgs/analys_s.c
+++ b/src/mmgs/analys_s.c
@@ -696,16 +696,18 @@ static int norver(MMG5_pMesh mesh) {
             ppt->n[0] = go->n1[1]*go->n2[2] - go->n1[2]*go->n2[1];
             ppt->n[1] = go->n1[2]*go->n2[0] - go->n1[0]*go->n2[2];
             ppt->n[2] = go->n1[0]*go->n2[1] - go->n1[1]*go->n2[0];
-            ppt->flag = mesh->base;
             dd = ppt->n[0]*ppt->n[0] + ppt->n[1]*ppt->n[1] + ppt->n[2]*ppt->n[2];
-            if ( dd > MMG5_EPSD2 ) {
+            if ( dd > MMG5_EPS ) {
+              ppt->flag = mesh->base;
               dd = 1.0 / sqrt(dd);
               ppt->n[0] *= dd;
               ppt->n[1] *= dd;
               ppt->n[2] *= dd;
+              ++nt;
+              continue;
             }
-            ++nt;
-            continue;
+            /* Flat ridge (user-provided): n1 and n2 are parallel, the tangent
+             * has to be computed from the ridge edges */
           }
         }
 
-- 
2.43.0


From d45be6395279d1a84074398ee9199cd32398dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 14/62] fix: mmgs swap must not create an already existing edge
 (non-manifold surface)

---
 src/mmgs/swapar_s.c | 48 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/mmgs/swapar_s.c b/src/mmgs/swapar_s.c
index 61f480a..2cb2a43 100644
--- a/src/mmgs/swapar_s.c
+++ b/src/mmgs/swapar_s.c
@@ -38,6 +38,51 @@
 #include "mmgexterns_private.h"
 #include "inlined_functions_private.h"
 
+/**
+ * \param mesh pointer to the mesh
+ * \param start index of the triangle from which we start
+ * \param ip local index of a vertex of triangle \a start
+ * \param iq global index of a vertex
+ *
+ * \return 1 if vertex \a iq is already linked by an edge to vertex \a ip of
+ * triangle \a start, 0 otherwise.
+ *
+ * Turn around vertex \a ip (in both directions if the ball is open) and search
+ * for vertex \a iq.
+ *
+ */
+static int MMGS_edgeInBall(MMG5_pMesh mesh,MMG5_int start,int ip,MMG5_int iq) {
+  MMG5_int      *adja,k;
+  int8_t        i,i1,i2;
+
+  k = start;
+  i = ip;
+  do {
+    i1 = MMG5_inxt2[i];
+    i2 = MMG5_iprv2[i];
+    if ( mesh->tria[k].v[i1] == iq || mesh->tria[k].v[i2] == iq )  return 1;
+    adja = &mesh->adja[3*(k-1)+1];
+    k  = adja[i1] / 3;
+    i  = MMG5_inxt2[adja[i1] % 3];
+  }
+  while ( k && k != start );
+
+  if ( !k ) {
+    k = start;
+    i = ip;
+    do {
+      i1 = MMG5_inxt2[i];
+      i2 = MMG5_iprv2[i];
+      if ( mesh->tria[k].v[i1] == iq || mesh->tria[k].v[i2] == iq )  return 1;
+      adja = &mesh->adja[3*(k-1)+1];
+      k  = adja[i2] / 3;
+      i  = MMG5_iprv2[adja[i2] % 3];
+    }
+    while ( k );
+  }
+  return 0;
+}
+
 /**
  * \param mesh pointer to the mesh
  * \param met pointer to the metric
@@ -93,6 +138,9 @@ int chkswp(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int i,int8_t typchk,
   iq = pt1->v[ii];
   q  = &mesh->point[iq];
 
+  /* the swapped edge must not already exist (non-manifold situation) */
+  if ( MMGS_edgeInBall(mesh,k,i,iq) )  return 0;
+
   /* local hausdorff for triangle */
   hausd = mesh->info.hausd;
   isloc = 0;
-- 
2.43.0


From a1c789ce34d7efe9e3d8f53dd3dbc41fb39594e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 15/62] fix: mmgs left an orphan point when its metric can not
 be interpolated

---
 src/mmgs/mmgs1.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mmgs/mmgs1.c b/src/mmgs/mmgs1.c
index e619e85..400fb25 100644
--- a/src/mmgs/mmgs1.c
+++ b/src/mmgs/mmgs1.c
@@ -1007,7 +1007,11 @@ MMG5_int chkspl(MMG5_pMesh mesh,MMG5_pSol met,MMG5_int k,int i) {
   s = 0.5;
 
   ier = intmet(mesh,met,k,i,ip,s);
-  if ( !ier ) return 0;
+  if ( !ier ) {
+    /* The edge can not be split: do not leave an orphan point */
+    MMGS_delPt(mesh,ip);
+    return 0;
+  }
 
   return ip;
 }
-- 
2.43.0


From 2317bf8f9b6e6f4cae699d38d8a3904ee0409173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:22 +0000
Subject: [PATCH 16/62] fix: vertex regularization moved the vertices of
 required tetrahedra

---
 src/mmg3d/analys_3d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmg3d/analys_3d.c b/src/mmg3d/analys_3d.c
index 051dd1e..a567954 100644
--- a/src/mmg3d/analys_3d.c
+++ b/src/mmg3d/analys_3d.c
@@ -986,6 +986,8 @@ int MMG3D_regver(MMG5_pMesh mesh) {
     for (i=0; i<4; i++) {
       ppt = &mesh->point[ptet->v[i]];
       if ( !ppt->flag )  ppt->flag = k;
+      /* vertices of required tetra must not move: remove their seed */
+      if ( ptet->tag & MG_REQ )  ppt->s = 0;
     }
   }
 
-- 
2.43.0


From bf28c15088fac9986dfbb087e8b1a22ccf68317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 17/62] fix: mmg3d swapped edges of required boundary triangles
 when the edge tag is missing

---
 src/mmg3d/mmg3d1.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmg3d/mmg3d1.c b/src/mmg3d/mmg3d1.c
index dc005e3..7a659db 100644
--- a/src/mmg3d/mmg3d1.c
+++ b/src/mmg3d/mmg3d1.c
@@ -616,6 +616,9 @@ MMG5_int MMG5_swpmsh(MMG5_pMesh mesh,MMG5_pSol met,MMG3D_pPROctree PROctree, int
       for (i=0; i<4; i++) {
         ier = 0;
         if ( !(pxt->ftag[i] & MG_BDY) ) continue;
+        /* No swap of an edge of a required triangle (the edge tag may be
+         * missing from one of the tetra of its shell) */
+        if ( pxt->ftag[i] & MG_REQ ) continue;
         for (j=0; j<3; j++) {
           ia  = MMG5_iarf[i][j];
           /* Mark the edge as boundary in case of missing tag */
-- 
2.43.0


From c8130ae9672ec36db95fe160ea6b1e01072f0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 18/62] fix: mmg3d interface triangles of the subdomain of
 reference 2 were not reoriented and lost their tags

---
 src/mmg3d/hash_3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/hash_3d.c b/src/mmg3d/hash_3d.c
index 45fcc37..62dc00b 100644
--- a/src/mmg3d/hash_3d.c
+++ b/src/mmg3d/hash_3d.c
@@ -2416,7 +2416,7 @@ int MMG5_bdryPerm(MMG5_pMesh mesh) {
       adj = adja[i] / 4;
       pt1 = &mesh->tetra[adj];
 
-      if ( adj && (pt->ref <= pt1->ref || pt->ref == MG_PLUS) )
+      if ( adj && (pt->ref <= pt1->ref) )
         continue;
 
       ia = pt->v[MMG5_idir[i][0]];
-- 
2.43.0


From 061347d12966583733c3742cef40af7d49757624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 19/62] fix: mmg2d nosurf mode removed the required flag of
 user-required vertices

---
 src/mmg2d/analys_2d.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/analys_2d.c b/src/mmg2d/analys_2d.c
index ded88b6..5b75928 100644
--- a/src/mmg2d/analys_2d.c
+++ b/src/mmg2d/analys_2d.c
@@ -122,8 +122,11 @@ int MMG2D_setadj(MMG5_pMesh mesh, int8_t init_cc) {
 
         /* Transfer tags if i is already an edge (e.g. supplied by the user) */
         if ( MG_EDG(pt->tag[i]) || (pt->tag[i] & MG_REQ) ) {
-          mesh->point[ip1].tag |= pt->tag[i];
-          mesh->point[ip2].tag |= pt->tag[i];
+          /* A vertex that is really required must not receive the nosurf tag
+           * (the required tag of nosurf vertices is removed after remeshing) */
+          tag = pt->tag[i];
+          mesh->point[ip1].tag |= ( mesh->point[ip1].tag & MG_REQ ) ? ( tag & ~MG_NOSURF ) : tag;
+          mesh->point[ip2].tag |= ( mesh->point[ip2].tag & MG_REQ ) ? ( tag & ~MG_NOSURF ) : tag;
         }
 
         /* Case of an external boundary */
-- 
2.43.0


From 15ebcc0d282545d71800323a9aaee48ef99fa1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:01 +0000
Subject: [PATCH 20/62] fix: mmg3d ignored the local maximum size at ridge
 vertices

---
 src/mmg3d/isosiz_3d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg3d/isosiz_3d.c b/src/mmg3d/isosiz_3d.c
index 7b9ccdf..310a6b3 100644
--- a/src/mmg3d/isosiz_3d.c
+++ b/src/mmg3d/isosiz_3d.c
@@ -1028,9 +1028,9 @@ int MMG3D_defsiz_iso(MMG5_pMesh mesh,MMG5_pSol met) {
           lm = sqrt(8.0*hausd / kappa);
 
         if ( MG_EDG(p0->tag) && !MG_SIN_OR_NOM(p0->tag) && p0->flag != 3 )
-          met->m[ip0] = MG_MAX(hmin,MG_MIN(met->m[ip0],lm));
+          met->m[ip0] = MG_MAX(hmin,MG_MIN(met->m[ip0],MG_MIN(hmax,lm)));
         if ( MG_EDG(p1->tag) && !MG_SIN_OR_NOM(p1->tag) && p1->flag != 3 )
-          met->m[ip1] = MG_MAX(hmin,MG_MIN(met->m[ip1],lm));
+          met->m[ip1] = MG_MAX(hmin,MG_MIN(met->m[ip1],MG_MIN(hmax,lm)));
       }
     }
   }
-- 
2.43.0


From 813df67e79463496ee3068aabc3ed3d1397a1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:54 +0000
Subject: [PATCH 21/62] fix: mmg2d intersected sizes with an uninitialised
 tensor (local parameters)

---
 src/mmg2d/anisosiz_2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmg2d/anisosiz_2d.c b/src/mmg2d/anisosiz_2d.c
index 23a5b63..e5160fa 100644
--- a/src/mmg2d/anisosiz_2d.c
+++ b/src/mmg2d/anisosiz_2d.c
@@ -454,6 +454,7 @@ int MMG2D_defsiz_ani(MMG5_pMesh mesh,MMG5_pSol met) {
 
             isqhmax = 1./(ppa->hmax*ppa->hmax);
             mm[0] = mm[2] = isqhmax;
+            mm[1] = 0.;
 
             if ( MMG5_intersecmet22(mesh,&met->m[3*ip],mm,mr) ) {
               memcpy(&met->m[3*ip],mr,3*sizeof(double));
@@ -474,6 +475,7 @@ int MMG2D_defsiz_ani(MMG5_pMesh mesh,MMG5_pSol met) {
         if ( ppa->elt == MMG5_Vertex && ppa->ref == ppt->ref ) {
           isqhmax = 1./(ppa->hmax*ppa->hmax);
           mm[0] = mm[2] = isqhmax;
+          mm[1] = 0.;
 
           if ( MMG5_intersecmet22(mesh,&met->m[3*k],mm,mr) ) {
             memcpy(&met->m[3*k],mr,3*sizeof(double));
-- 
2.43.0


From 1d33bcead7e22a0ba74da70ab071433ca6f6b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:54 +0000
Subject: [PATCH 22/62] fix: seeds of the regularization left by a previous run
 gave out of bounds reads

---
 src/common/analys.c   | 5 +++++
 src/mmg3d/analys_3d.c | 5 +++++
 src/mmgs/analys_s.c   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/common/analys.c b/src/common/analys.c
index 0184a57..127472f 100644
--- a/src/common/analys.c
+++ b/src/common/analys.c
@@ -51,6 +51,11 @@ int MMG5_regnor(MMG5_pMesh mesh) {
   int           i,it,nit,ilist;
   MMG5_int      k,nn,iel,list[MMG5_LMAX],tlist[MMG5_LMAX],*adja,iad;
 
+  /* the seeds may be set by a previous run */
+  for (k=1; k<=mesh->np; k++) {
+    mesh->point[k].s = 0;
+  }
+
   /* assign seed to vertex */
   for (k=1; k<=mesh->nt; k++) {
     pt = &mesh->tria[k];
diff --git a/src/mmg3d/analys_3d.c b/src/mmg3d/analys_3d.c
index a567954..0c13cd6 100644
--- a/src/mmg3d/analys_3d.c
+++ b/src/mmg3d/analys_3d.c
@@ -965,6 +965,11 @@ int MMG3D_regver(MMG5_pMesh mesh) {
   MMG5_int      k,kt,nn,iel,list[MMG5_LMAX],tlist[MMG5_LMAX],*adja,iad,v[4];
   int64_t       tetlist[MMG5_LMAX];
 
+  /* the seeds may be set by a previous run */
+  for (k=1; k<=mesh->np; k++) {
+    mesh->point[k].s = 0;
+  }
+
   /* assign seed to vertex */
   for (k=1; k<=mesh->nt; k++) {
     pt = &mesh->tria[k];
diff --git a/src/mmgs/analys_s.c b/src/mmgs/analys_s.c
index 2a4a079..a642769 100644
--- a/src/mmgs/analys_s.c
+++ b/src/mmgs/analys_s.c
@@ -824,6 +824,11 @@ int MMGS_regver(MMG5_pMesh mesh) {
   int           i,it,nit,ilist,noupdate,ier;
   MMG5_int      k,kt,nn,iel,list[MMG5_LMAX],tlist[MMG5_LMAX],*adja,iad;
 
+  /* the seeds may be set by a previous run */
+  for (k=1; k<=mesh->np; k++) {
+    mesh->point[k].s = 0;
+  }
+
   /* assign seed to vertex */
   for (k=1; k<=mesh->nt; k++) {
     pt = &mesh->tria[k];
-- 
2.43.0


From d78d2a8b2d990b4cc15e4bccd3d1d621effad201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:54 +0000
Subject: [PATCH 23/62] fix: packing an empty mesh gave -1 points (mmg3d)

---
 src/mmg3d/libmmg3d.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index aab1443..5471923 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -473,13 +473,11 @@ int MMG3D_pack_pointArray(MMG5_pMesh mesh) {
   MMG5_pPoint   ppt,ppt1;
   MMG5_int      k;
 
-  k = 1;
-
   while ( (!MG_VOK(&mesh->point[mesh->np]))  && mesh->np  ) {
     MMG3D_delPt(mesh,mesh->np);
   }
 
-  do {
+  for ( k=1; k<=mesh->np; ++k ) {
     ppt = &mesh->point[k];
     if ( !MG_VOK(ppt) ) {
       ppt1 = &mesh->point[mesh->np];
@@ -504,7 +502,6 @@ int MMG3D_pack_pointArray(MMG5_pMesh mesh) {
       }
     }
   }
-  while ( ++k < mesh->np );
 
   /* Recreate nil chain */
   for(k=1 ; k<=mesh->np ; k++)
-- 
2.43.0


From e478cbbe2db0d5c85941563329904bda0c8c69fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:14 +0000
Subject: [PATCH 24/62] fix: regularization of vertices that belong to prisms
 only read outside of the tetra array

---
 src/mmg3d/analys_3d.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmg3d/analys_3d.c b/src/mmg3d/analys_3d.c
index 0c13cd6..12b403b 100644
--- a/src/mmg3d/analys_3d.c
+++ b/src/mmg3d/analys_3d.c
@@ -1124,6 +1124,10 @@ int MMG3D_regver(MMG5_pMesh mesh) {
       /* check for negative volumes */
       if ( !noupdate ) {
         iel = ppt->flag;
+
+        /* vertex that doesn't belong to a tetra (prism vertex) */
+        if ( !iel ) continue;
+
         ptet = &mesh->tetra[iel];
 
         if ( !MG_EOK(ptet) ) continue;
-- 
2.43.0


From 56d54eb80f623dfbbf6c1a157a7449d75b8f1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:14 +0000
Subject: [PATCH 25/62] fix: normal of points inserted along internal non
 manifold edges was uninitialised

---
 src/mmg3d/tools_3d.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmg3d/tools_3d.c b/src/mmg3d/tools_3d.c
index 45e20e2..9ed1991 100644
--- a/src/mmg3d/tools_3d.c
+++ b/src/mmg3d/tools_3d.c
@@ -643,6 +643,10 @@ inline int MMG5_BezierNom(MMG5_pMesh mesh,MMG5_int ip0,MMG5_int ip1,double s,dou
           no[2] *= dd;
       }
     }
+    else {
+      /* no normal along an internal non manifold edge */
+      no[0] = no[1] = no[2] = 0.;
+    }
 
     /* Tangent interpolation : possibly flip (back) t1 */
     ps = t0[0]*t1[0] + t0[1]*t1[1] + t0[2]*t1[2];
-- 
2.43.0


From 5c422e143617cfe194c5f4e6fe078dce94e1250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:14 +0000
Subject: [PATCH 26/62] fix: packing the solution of an empty mesh gave -1
 values (mmg3d)

---
 src/mmg3d/libmmg3d.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mmg3d/libmmg3d.c b/src/mmg3d/libmmg3d.c
index 5471923..c38e232 100644
--- a/src/mmg3d/libmmg3d.c
+++ b/src/mmg3d/libmmg3d.c
@@ -426,14 +426,13 @@ int MMG3D_pack_sol(MMG5_pMesh mesh,MMG5_pSol sol) {
   int           i;
 
   if ( sol && sol->m ) {
-    k  = 1;
     np = mesh->np;
     /* Search the last used point */
     while ( (!MG_VOK(mesh->point+np)) && np ) {
       --np;
     }
 
-    do {
+    for ( k=1; k<=np; ++k ) {
       ppt = &mesh->point[k];
       if ( !MG_VOK(ppt) ) {
         /* Copy last used point into first used one */
@@ -454,7 +453,6 @@ int MMG3D_pack_sol(MMG5_pMesh mesh,MMG5_pSol sol) {
         while ( !MG_VOK(ppt1) && k < np );
       }
     }
-    while ( ++k < np );
 
     sol->npi = sol->np = np;
   }
-- 
2.43.0


From 1c5fe8b6c14f96f2d69d1dba014cc217e2361c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 27/62] fix: account for the edge hash tables freed by mmg2d
 and the anisotropic gradation

---
 src/mmg2d/delone_2d.c   | 2 +-
 src/mmg2d/lissmet_2d.c  | 2 +-
 src/mmg3d/anisosiz_3d.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmg2d/delone_2d.c b/src/mmg2d/delone_2d.c
index 45e2588..1115b0a 100644
--- a/src/mmg2d/delone_2d.c
+++ b/src/mmg2d/delone_2d.c
@@ -403,6 +403,6 @@ int MMG2D_delone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int ip,MMG5_int *list,int il
 
   //ppt = &mesh->point[ip];
   //  ppt->flag = mesh->flag;
-  MMG5_SAFE_FREE(hedg.item);
+  MMG5_DEL_MEM(mesh,hedg.item);
   return 1;
 }
diff --git a/src/mmg2d/lissmet_2d.c b/src/mmg2d/lissmet_2d.c
index 06212d3..f668433 100644
--- a/src/mmg2d/lissmet_2d.c
+++ b/src/mmg2d/lissmet_2d.c
@@ -195,7 +195,7 @@ int lissmet_ani(MMG5_pMesh mesh,MMG5_pSol sol) {
     }
     ncor += nc;
   } while ( nc && ++itour < maxtou );
-  MMG5_SAFE_FREE(edgeTable.item);
+  MMG5_DEL_MEM(mesh,edgeTable.item);
 
   if ( abs(mesh->info.imprim) > 3 && ncor ) {
     fprintf(stdout,"     gradation: %7" MMG5_PRId " updated, %d iter.\n",ncor,itour);
diff --git a/src/mmg3d/anisosiz_3d.c b/src/mmg3d/anisosiz_3d.c
index cc3e0b4..105806f 100644
--- a/src/mmg3d/anisosiz_3d.c
+++ b/src/mmg3d/anisosiz_3d.c
@@ -2186,7 +2186,7 @@ int MMG3D_gradsiz_ani(MMG5_pMesh mesh,MMG5_pSol met) {
     }
     nupv += nu;
   } while ( ++itv < maxit && nu > 0 );
-  MMG5_SAFE_FREE(edgeTable.item);
+  MMG5_DEL_MEM(mesh,edgeTable.item);
 
   if ( abs(mesh->info.imprim) > 3 ) {
     if( mmgWarn ) {
-- 
2.43.0


From 634e000c8c79ede322fa61e025bee40b1ca45318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 28/62] fix: free the marking table of MMG3D_snpval_lssurf

---
 src/mmg3d/mmg3d2s.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index b76b47b..29cd570 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -143,6 +143,8 @@ int MMG3D_snpval_lssurf(MMG5_pMesh mesh,MMG5_pSol sol) {
     }
   }
 
+  MMG5_DEL_MEM(mesh,tmp);
+
   return 1;
 }
 
-- 
2.43.0


From 3c6e10995fa63aacf263356d83600fb4b62e1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 29/62] fix: free the level-set structure in MMGS_Free_all

---
 src/mmgs/variadic_s.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmgs/variadic_s.c b/src/mmgs/variadic_s.c
index 210b577..4b827cf 100644
--- a/src/mmgs/variadic_s.c
+++ b/src/mmgs/variadic_s.c
@@ -286,6 +286,9 @@ int MMGS_Free_all_var(va_list argptr)
   if ( sol )
     MMG5_SAFE_FREE(*sol);
 
+  if ( ls )
+    MMG5_SAFE_FREE(*ls);
+
   if ( sols ) {
     MMG5_DEL_MEM(*mesh,*sols);
   }
-- 
2.43.0


From 8282b1a5546a456a8c04b7a8b9e3a766e53df395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 30/62] fix: account for and free the array of level-set base
 references

---
 src/common/API_functions.c   |  5 +++++
 src/mmg3d/API_functions_3d.c | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/common/API_functions.c b/src/common/API_functions.c
index 706c047..3c667d4 100644
--- a/src/common/API_functions.c
+++ b/src/common/API_functions.c
@@ -538,6 +538,11 @@ void MMG5_Free_structures(MMG5_pMesh mesh,MMG5_pSol sol){
   if ( mesh->info.npar && mesh->info.par )
     MMG5_DEL_MEM(mesh,mesh->info.par);
 
+  if ( mesh->info.br ) {
+    MMG5_DEL_MEM(mesh,mesh->info.br);
+    mesh->info.nbr = mesh->info.nbri = 0;
+  }
+
   if ( mesh->info.nmat ) {
     if( mesh->info.mat )
       MMG5_DEL_MEM(mesh,mesh->info.mat);
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index ba446b3..736cff8 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -2253,8 +2253,14 @@ int MMG3D_Set_iparameter(MMG5_pMesh mesh, MMG5_pSol sol, int iparam,MMG5_int val
 
     break;
   case MMG3D_IPARAM_numberOfLSBaseReferences :
-    mesh->info.nbr = val;
-    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(int),"References",
+    if ( mesh->info.br ) {
+      MMG5_DEL_MEM(mesh,mesh->info.br);
+      if ( (mesh->info.imprim > 5) || mesh->info.ddebug )
+        fprintf(stderr,"\n  ## Warning: %s: new level-set based references values\n",__func__);
+    }
+    mesh->info.nbr   = val;
+    mesh->info.nbri  = 0;
+    MMG5_ADD_MEM(mesh,mesh->info.nbr*sizeof(MMG5_int),"References",
                  printf("  Exit program.\n");
                  return 0);
     MMG5_SAFE_CALLOC(mesh->info.br,mesh->info.nbr,MMG5_int,return 0);
-- 
2.43.0


From 56dc353aae3f814bf85df6836851b542c1d028aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 31/62] fix: let the non boundary edges or triangles be counted
 more than once, and free local parameters with the matching deallocator

---
 src/mmg2d/libmmg2d_tools.c | 24 ++++++++++++++----------
 src/mmg3d/libmmg3d_tools.c | 26 ++++++++++++++------------
 src/mmgs/libmmgs_tools.c   | 24 ++++++++++++++----------
 3 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/mmg2d/libmmg2d_tools.c b/src/mmg2d/libmmg2d_tools.c
index 0ebf7e9..755c9d5 100644
--- a/src/mmg2d/libmmg2d_tools.c
+++ b/src/mmg2d/libmmg2d_tools.c
@@ -690,7 +690,7 @@ int MMG2D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
 /* Free the structure dedicated to the management of multiple local parameters */
 int MMG2D_freeLocalPar(MMG5_pMesh mesh) {
 
-  free(mesh->info.par);
+  MMG5_DEL_MEM(mesh,mesh->info.par);
   mesh->info.npar = 0;
 
   return 1;
@@ -700,6 +700,8 @@ int MMG2D_Get_numberOfNonBdyEdges(MMG5_pMesh mesh, MMG5_int* nb_edges) {
   MMG5_pTria pt,pt1;
   MMG5_pEdge ped;
   MMG5_int   *adja,k,i,j,i1,i2,iel;
+  size_t     old_size,new_size;
+  char       *ptr_c;
 
   *nb_edges = 0;
   if ( mesh->tria ) {
@@ -739,18 +741,20 @@ int MMG2D_Get_numberOfNonBdyEdges(MMG5_pMesh mesh, MMG5_int* nb_edges) {
     }
 
     /* Append the non boundary edges to the boundary edges array */
-    if ( mesh->namax ) {
-      MMG5_ADD_MEM(mesh,(*nb_edges)*sizeof(MMG5_Edge),"non boundary edges",
-                   printf("  Exit program.\n");
-                   return 0);
-      MMG5_SAFE_RECALLOC(mesh->edge,(mesh->namax+1),(mesh->namax+(*nb_edges)+1),
-                         MMG5_Edge,"non bdy edges arrray",return 0);
+    /* The array may already contain the edges appended by a previous call: use
+     * its real size */
+    old_size = 0;
+    if ( mesh->edge ) {
+      ptr_c    = ((char *)mesh->edge)-sizeof(size_t);
+      old_size = (*((size_t*)ptr_c))/sizeof(MMG5_Edge);
     }
-    else {
-      MMG5_ADD_MEM(mesh,((*nb_edges)+1)*sizeof(MMG5_Edge),"non boundary edges",
+    new_size = (size_t)(mesh->namax+(*nb_edges)+1);
+
+    if ( new_size > old_size ) {
+      MMG5_ADD_MEM(mesh,(new_size-old_size)*sizeof(MMG5_Edge),"non boundary edges",
                    printf("  Exit program.\n");
                    return 0);
-      MMG5_SAFE_RECALLOC(mesh->edge,0,((*nb_edges)+1),
+      MMG5_SAFE_RECALLOC(mesh->edge,old_size,new_size,
                          MMG5_Edge,"non bdy edges arrray",return 0);
     }
 
diff --git a/src/mmg3d/libmmg3d_tools.c b/src/mmg3d/libmmg3d_tools.c
index 43fa2b7..162f557 100644
--- a/src/mmg3d/libmmg3d_tools.c
+++ b/src/mmg3d/libmmg3d_tools.c
@@ -907,7 +907,7 @@ int MMG3D_parsop(MMG5_pMesh mesh,MMG5_pSol met) {
 
 int MMG3D_freeLocalPar(MMG5_pMesh mesh) {
 
-  free(mesh->info.par);
+  MMG5_DEL_MEM(mesh,mesh->info.par);
   mesh->info.npar = 0;
 
   return 1;
@@ -918,8 +918,10 @@ int MMG3D_Get_numberOfNonBdyTriangles(MMG5_pMesh mesh, MMG5_int* nb_tria) {
   MMG5_pPrism pp;
   MMG5_pTria  ptt;
   MMG5_Hash   hash;
+  size_t      old_size,new_size;
   int         i;
   MMG5_int    ref,*adja,j,k,iel;
+  char        *ptr_c;
 
   *nb_tria = 0;
   memset ( &hash, 0x0, sizeof(MMG5_Hash));
@@ -1045,20 +1047,20 @@ int MMG3D_Get_numberOfNonBdyTriangles(MMG5_pMesh mesh, MMG5_int* nb_tria) {
   }
 
   /** Third step: Append the non boundary edges to the boundary edges array */
-  if ( mesh->nt ) {
-    MMG5_ADD_MEM(mesh,(*nb_tria)*sizeof(MMG5_Tria),"non boundary triangles",
-                 printf("  Exit program.\n");
-                 MMG5_DEL_MEM(mesh,hash.item);
-                 return 0);
-    MMG5_SAFE_RECALLOC(mesh->tria,(mesh->nt+1),(mesh->nt+(*nb_tria)+1),
-                       MMG5_Tria,"non bdy tria arrray",return 0);
+  /* The array may already contain the triangles appended by a previous call: use
+   * its real size */
+  old_size = 0;
+  if ( mesh->tria ) {
+    ptr_c    = ((char *)mesh->tria)-sizeof(size_t);
+    old_size = (*((size_t*)ptr_c))/sizeof(MMG5_Tria);
   }
-  else {
-    MMG5_ADD_MEM(mesh,((*nb_tria)+1)*sizeof(MMG5_Tria),"non boundary triangles",
+  new_size = (size_t)(mesh->nt+(*nb_tria)+1);
+
+  if ( new_size > old_size ) {
+    MMG5_ADD_MEM(mesh,(new_size-old_size)*sizeof(MMG5_Tria),"non boundary triangles",
                  printf("  Exit program.\n");
-                 MMG5_DEL_MEM(mesh,hash.item);
                  return 0);
-    MMG5_SAFE_RECALLOC(mesh->tria,0,((*nb_tria)+1),
+    MMG5_SAFE_RECALLOC(mesh->tria,old_size,new_size,
                        MMG5_Tria,"non bdy tria arrray",return 0);
   }
 
diff --git a/src/mmgs/libmmgs_tools.c b/src/mmgs/libmmgs_tools.c
index 89f3e88..4ebc872 100644
--- a/src/mmgs/libmmgs_tools.c
+++ b/src/mmgs/libmmgs_tools.c
@@ -543,7 +543,7 @@ int MMGS_parsar(int argc,char *argv[],MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol so
 
 int MMGS_freeLocalPar(MMG5_pMesh mesh) {
 
-  free(mesh->info.par);
+  MMG5_DEL_MEM(mesh,mesh->info.par);
   mesh->info.npar = 0;
 
   return 1;
@@ -572,7 +572,9 @@ int MMGS_Get_numberOfNonBdyEdges(MMG5_pMesh mesh, MMG5_int* nb_edges) {
   MMG5_pTria pt,pt1;
   MMG5_pEdge ped;
   MMG5_int   *adja,k,j,iel;
+  size_t     old_size,new_size;
   int        i,i1,i2;
+  char       *ptr_c;
 
   *nb_edges = 0;
   if ( mesh->tria ) {
@@ -613,18 +615,20 @@ int MMGS_Get_numberOfNonBdyEdges(MMG5_pMesh mesh, MMG5_int* nb_edges) {
     }
 
     /* Append the non boundary edges to the boundary edges array */
-    if ( mesh->na ) {
-      MMG5_ADD_MEM(mesh,(*nb_edges)*sizeof(MMG5_Edge),"non boundary edges",
-                   printf("  Exit program.\n");
-                   return 0);
-      MMG5_SAFE_RECALLOC(mesh->edge,(mesh->na+1),(mesh->na+(*nb_edges)+1),
-                         MMG5_Edge,"non bdy edges arrray",return 0);
+    /* The array may already contain the edges appended by a previous call: use
+     * its real size */
+    old_size = 0;
+    if ( mesh->edge ) {
+      ptr_c    = ((char *)mesh->edge)-sizeof(size_t);
+      old_size = (*((size_t*)ptr_c))/sizeof(MMG5_Edge);
     }
-    else {
-      MMG5_ADD_MEM(mesh,((*nb_edges)+1)*sizeof(MMG5_Edge),"non boundary edges",
+    new_size = (size_t)(mesh->na+(*nb_edges)+1);
+
+    if ( new_size > old_size ) {
+      MMG5_ADD_MEM(mesh,(new_size-old_size)*sizeof(MMG5_Edge),"non boundary edges",
                    printf("  Exit program.\n");
                    return 0);
-      MMG5_SAFE_RECALLOC(mesh->edge,0,(*nb_edges)+1,
+      MMG5_SAFE_RECALLOC(mesh->edge,old_size,new_size,
                          MMG5_Edge,"non bdy edges arrray",return 0);
     }
 
-- 
2.43.0


From fd02f75b13f09224297cd1b8bb3ac82812634b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:38 +0000
Subject: [PATCH 32/62] fix: compare the reference of the last edge, not its
 vertex, with the isovalue reference when cleaning an old isosurface

---
 src/common/libtools.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/libtools.c b/src/common/libtools.c
index 77603d0..a408344 100644
--- a/src/common/libtools.c
+++ b/src/common/libtools.c
@@ -371,7 +371,7 @@ int MMG5_Clean_isoEdges(MMG5_pMesh mesh) {
   nref = 0;
 
   /** Deletion of edges that belong to isosurf */
-  if ( mesh->edge ) {
+  if ( mesh->edge && mesh->na ) {
     MMG5_int na = mesh->na;
 
     k  = 1;
@@ -428,7 +428,10 @@ int MMG5_Clean_isoEdges(MMG5_pMesh mesh) {
 
     /* Check if last edge is iso */
     MMG5_pEdge pa = &mesh->edge[mesh->na];
-    if ( (!pa->a) || (MMG5_abs(pa->a) == mesh->info.isoref) ) {
+    if ( MMG5_should_edge_be_removed(mesh,pa) ) {
+      if ( pa->a ) {
+        MMG5_Clean_isoTags(mesh,pa);
+      }
       --mesh->na;
     }
 
-- 
2.43.0


From 6e407067cdb971b6671cdfc90906b3d949b37413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:47 +0000
Subject: [PATCH 33/62] fix: keep the point octree consistent after a refused
 allocation

---
 src/mmg3d/PRoctree_3d.c | 45 ++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/mmg3d/PRoctree_3d.c b/src/mmg3d/PRoctree_3d.c
index 59505b9..8f7e241 100644
--- a/src/mmg3d/PRoctree_3d.c
+++ b/src/mmg3d/PRoctree_3d.c
@@ -84,6 +84,7 @@ int MMG3D_initPROctree(MMG5_pMesh mesh,MMG3D_pPROctree* q, int nv)
   // Number maximum of cells listed for the zone search
   (*q)->nc = MG_MAX(2048/nv,16);
 
+  (*q)->q0 = NULL;
   MMG5_ADD_MEM(mesh,sizeof(MMG3D_PROctree_s),"initial PROctree cell",
                 return 0);
 
@@ -163,9 +164,11 @@ void MMG3D_freePROctree_s(MMG5_pMesh mesh,MMG3D_PROctree_s* q, int nv)
  */
 void MMG3D_freePROctree(MMG5_pMesh mesh,MMG3D_pPROctree *q)
 {
-  MMG3D_freePROctree_s(mesh,(*q)->q0, (*q)->nv);
-  MMG5_DEL_MEM(mesh,(*q)->q0);
-  (*q)->q0 = NULL;
+  if ( (*q)->q0 ) {
+    MMG3D_freePROctree_s(mesh,(*q)->q0, (*q)->nv);
+    MMG5_DEL_MEM(mesh,(*q)->q0);
+    (*q)->q0 = NULL;
+  }
   MMG5_DEL_MEM(mesh,*q);
   *q = NULL;
 }
@@ -676,7 +679,8 @@ int MMG3D_addPROctreeRec(MMG5_pMesh mesh, MMG3D_PROctree_s* q, double* ver,
         sizeRealloc<<=1;
         MMG5_ADD_MEM(mesh,(sizeRealloc-sizeRealloc/2)*sizeof(MMG5_int),"PROctree realloc",
                       return 0);
-        MMG5_SAFE_REALLOC(q->v,q->nbVer,sizeRealloc,MMG5_int,"PROctree",return 0);
+        MMG5_SAFE_REALLOC(q->v,q->nbVer,sizeRealloc,MMG5_int,"PROctree",
+                          q->nbVer = 0; return 0);
       }
 
       q->v[q->nbVer] = no;
@@ -708,12 +712,23 @@ int MMG3D_addPROctreeRec(MMG5_pMesh mesh, MMG3D_PROctree_s* q, double* ver,
             pt[k] *= 2;
           }
         }
-        if (!MMG3D_addPROctreeRec(mesh, q, pt, q->v[i],nv))
+        if (!MMG3D_addPROctreeRec(mesh, q, pt, q->v[i],nv)) {
+          /* Lack of memory: cancel the subdivision of the cell */
+          for (j = 0; j<sizBr; j++) {
+            MMG3D_freePROctree_s(mesh, &(q->branches[j]), nv);
+          }
+          MMG5_DEL_MEM(mesh,q->branches);
+          q->nbVer = nv;
           return 0;
+        }
         q->nbVer--;
       }
-      if (!MMG3D_addPROctreeRec(mesh, q, ver, no, nv))
+      if (!MMG3D_addPROctreeRec(mesh, q, ver, no, nv)) {
+        /* Lack of memory: the vertices of the cell are now in its sub-cells */
+        q->nbVer = nv+1;
+        MMG5_DEL_MEM(mesh,q->v);
         return 0;
+      }
       q->nbVer--;
       MMG5_DEL_MEM(mesh,q->v);
 
@@ -747,14 +762,16 @@ int MMG3D_addPROctreeRec(MMG5_pMesh mesh, MMG3D_PROctree_s* q, double* ver,
         sizeRealloc <<= 1;
         MMG5_ADD_MEM(mesh,(sizeRealloc-sizeRealloc/2)*sizeof(MMG5_int),"PROctree realloc",
                       return 0);
-        MMG5_SAFE_REALLOC(q->v,q->nbVer,sizeRealloc,MMG5_int,"PROctree",return 0);
+        MMG5_SAFE_REALLOC(q->v,q->nbVer,sizeRealloc,MMG5_int,"PROctree",
+                          q->nbVer = 0; return 0);
       }
     }
     else if (q->nbVer%nv == 0) // special reallocation of the vertex list because it is at maximum depth
     {
       MMG5_ADD_MEM(mesh,nv*sizeof(MMG5_int),"PROctree realloc",
                     return 0);
-      MMG5_SAFE_REALLOC(q->v,q->nbVer,q->nbVer+nv,MMG5_int,"PROctree",return 0);
+      MMG5_SAFE_REALLOC(q->v,q->nbVer,q->nbVer+nv,MMG5_int,"PROctree",
+                        q->nbVer = 0; return 0);
     }
 
     q->v[q->nbVer] = no;
@@ -810,9 +827,11 @@ int MMG3D_delPROctreeVertex(MMG5_pMesh mesh, MMG3D_PROctree_s* q, MMG5_int indNo
   --(q->nbVer);
   if (!(q->nbVer & (q->nbVer - 1)) && q->nbVer > 0) // is a power of 2
   {
+    /* Without enough memory to shrink the list, keep the current one */
     MMG5_ADD_MEM(mesh,q->nbVer*sizeof(MMG5_int),"PROctree index",
-                  return 0);
-    MMG5_SAFE_MALLOC(vTemp,q->nbVer,MMG5_int,return 0);
+                  return 1);
+    MMG5_SAFE_MALLOC(vTemp,q->nbVer,MMG5_int,
+                     mesh->memCur -= q->nbVer*sizeof(MMG5_int); return 1);
     memcpy(vTemp, q->v,q->nbVer*sizeof(MMG5_int));
     MMG5_DEL_MEM(mesh,q->v);
 
@@ -877,6 +896,8 @@ void MMG3D_mergeBranches(MMG5_pMesh mesh,MMG3D_PROctree_s* q, int dim, int nv)
     MMG3D_freePROctree_s(mesh,&(q->branches[i]), nv);
   }
   MMG5_DEL_MEM(mesh,q->branches);
+  /* some vertices may miss after a lack of memory */
+  q->nbVer = index;
 }
 
 /**
@@ -935,8 +956,8 @@ int MMG3D_delPROctreeRec(MMG5_pMesh mesh, MMG3D_PROctree_s* q, double* ver, cons
     if (nbVerTemp > q->branches[(int)quadrant].nbVer)
     {
       MMG5_ADD_MEM(mesh,nv*sizeof(MMG5_int),"PROctree vertices table",
-                    return 0);
-      MMG5_SAFE_MALLOC(q->v,nv,MMG5_int,return 0);
+                    ++q->nbVer; return 0);
+      MMG5_SAFE_MALLOC(q->v,nv,MMG5_int,++q->nbVer; return 0);
       MMG3D_mergeBranches(mesh,q,dim,nv);
     }else
     {
-- 
2.43.0


From a654e6f4c11d0b445155b5481258196273bd5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:48 +0000
Subject: [PATCH 34/62] fix: mmg3d went on with missing triangles, edges or
 adjacencies after a refused allocation

---
 src/mmg3d/hash_3d.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mmg3d/hash_3d.c b/src/mmg3d/hash_3d.c
index 62dc00b..7fd9f6f 100644
--- a/src/mmg3d/hash_3d.c
+++ b/src/mmg3d/hash_3d.c
@@ -1201,8 +1201,10 @@ int MMG5_hGeom(MMG5_pMesh mesh) {
       MMG5_DEL_MEM(mesh,mesh->htab.geom);
 
     mesh->namax = MG_MAX((MMG5_int)(1.5*mesh->na),MMG3D_NAMAX);
-    if ( !MMG5_hNew(mesh,&mesh->htab,mesh->na,3*mesh->namax) )
+    if ( !MMG5_hNew(mesh,&mesh->htab,mesh->na,3*mesh->namax) ) {
+      mesh->na = 0;
       return 0;
+    }
 
     mesh->na = 0;
 
@@ -1566,24 +1568,32 @@ int MMG5_chkBdryTria(MMG5_pMesh mesh) {
 
   /** Step 1: scan the mesh and count the boundaries */
   ier = MMG5_chkBdryTria_countBoundaries(mesh,&ntmesh,&ntpres);
+  if ( !ier ) return 0;
 
   /** Step 2: detect the extra boundaries (that will be ignored) provided by the
    * user */
   if ( mesh->nt ) {
     ier = MMG5_chkBdryTria_hashBoundaries(mesh,ntmesh,&hashElt);
+    if ( !ier ) {
+      if ( hashElt.item ) MMG5_DEL_MEM(mesh,hashElt.item);
+      return 0;
+    }
     // Travel through the tria, flag those that are not in the hash tab or
     // that are stored more that once.
     ier = MMG5_chkBdryTria_flagExtraTriangles(mesh,&ntpres,&hashElt);
+    if ( !ier ) {
+      if ( hashElt.item ) MMG5_DEL_MEM(mesh,hashElt.item);
+      return 0;
+    }
     // Delete flagged triangles
     ier = MMG5_chkBdryTria_deleteExtraTriangles(mesh,NULL);
+    if ( !ier ) return 0;
   }
   ntmesh +=ntpres;
 
   /** Step 3: add the missing boundary triangles or, if the mesh contains
    * prisms, set to required the triangles at interface betwen prisms and tet */
-  ier = MMG5_chkBdryTria_addMissingTriangles(mesh,ntmesh,ntpres);
-
-  return 1;
+  return MMG5_chkBdryTria_addMissingTriangles(mesh,ntmesh,ntpres);
 }
 
 /**
@@ -1605,6 +1615,10 @@ int MMG5_chkBdryTria_countBoundaries(MMG5_pMesh mesh, MMG5_int *ntmesh, MMG5_int
   int         i;
   
   *ntmesh = *ntpres = 0;
+
+  /* Adjacencies may miss after a lack of memory */
+  if ( mesh->ne && !mesh->adja ) return 0;
+
   for (k=1; k<=mesh->ne; k++) {
     pt = &mesh->tetra[k];
     if ( !MG_EOK(pt) )  continue;
@@ -1896,7 +1910,8 @@ int MMG5_chkBdryTria_deleteExtraTriangles(MMG5_pMesh mesh, MMG5_int* permtria) {
     fprintf(stderr,"\n  ## Warning: %s: %" MMG5_PRId " extra boundaries provided."
             " Ignored\n",__func__,nbl);
     MMG5_ADD_MEM(mesh,(-nbl)*sizeof(MMG5_Tria),"triangles",return 0);
-    MMG5_SAFE_REALLOC(mesh->tria,mesh->nt+1,nt+1,MMG5_Tria,"triangles",return 0);
+    MMG5_SAFE_REALLOC(mesh->tria,mesh->nt+1,nt+1,MMG5_Tria,"triangles",
+                      mesh->nt = 0; return 0);
     mesh->nt = nt;
   }
   return 1;
@@ -1939,7 +1954,8 @@ int MMG5_chkBdryTria_addMissingTriangles(MMG5_pMesh mesh, MMG5_int ntmesh, MMG5_
     assert((!mesh->nprism && ntmesh>mesh->nt)||(mesh->nprism && ntmesh>=mesh->nt));
     if ( ntmesh > mesh->nt ) {
       MMG5_ADD_MEM(mesh,(ntmesh-mesh->nt)*sizeof(MMG5_Tria),"triangles",return 0);
-      MMG5_SAFE_RECALLOC(mesh->tria,mesh->nt+1,ntmesh+1,MMG5_Tria,"triangles",return 0);
+      MMG5_SAFE_RECALLOC(mesh->tria,mesh->nt+1,ntmesh+1,MMG5_Tria,"triangles",
+                         mesh->nt = 0; return 0);
       nbl = ntmesh-mesh->nt;
     }
   }
-- 
2.43.0


From f8f0761f98b03e1449234fd9055bffaee4c27c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:48 +0000
Subject: [PATCH 35/62] fix: mmgs went on with a missing hash table after a
 refused allocation

---
 src/common/hash.c | 1 +
 src/mmgs/hash_s.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/common/hash.c b/src/common/hash.c
index ce1f5d1..6f19a99 100644
--- a/src/common/hash.c
+++ b/src/common/hash.c
@@ -536,6 +536,7 @@ int MMG5_hashNew(MMG5_pMesh mesh,MMG5_Hash *hash,MMG5_int hsiz,MMG5_int hmax) {
   hash->siz  = hsiz+1;
   hash->max  = hmax + 2;
   hash->nxt  = hash->siz;
+  hash->item = NULL;
 
   MMG5_ADD_MEM(mesh,(hash->max+1)*sizeof(MMG5_hedge),"hash table",
                 return 0);
diff --git a/src/mmgs/hash_s.c b/src/mmgs/hash_s.c
index 041b049..81680b1 100644
--- a/src/mmgs/hash_s.c
+++ b/src/mmgs/hash_s.c
@@ -177,6 +177,7 @@ int MMGS_bdryUpdate(MMG5_pMesh mesh) {
   /* Euler formula : na ~ 3np */
   if ( !MMG5_hashNew(mesh,&hash,3*mesh->np,9*mesh->np) ) {
     printf("  # Error: %s: Not enough memory to allocate edge hash table",__func__);
+    return 0;
   }
 
   /* hash tagged edges */
-- 
2.43.0


From b3a4c919a94357ebdb533a6dfbbcda21d1df3cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:48 +0000
Subject: [PATCH 36/62] fix: mmgs packed a mesh without adjacencies, and handed
 back an unpacked mesh as saveable, after a refused allocation

---
 src/mmgs/libmmgs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmgs/libmmgs.c b/src/mmgs/libmmgs.c
index e86930d..e71e478 100644
--- a/src/mmgs/libmmgs.c
+++ b/src/mmgs/libmmgs.c
@@ -53,10 +53,9 @@
       mesh->nti = mesh->nt;                       \
       mesh->nai = mesh->na;                       \
       mesh->nei = mesh->ne;                       \
-      met->npi  = met->np;                        \
       if ( met ) { met->npi  = met->np; }         \
       if ( sol ) { sol->npi  = sol->np; }         \
-      return MMG5_LOWFAILURE;                     \
+      return MMG5_STRONGFAILURE;                  \
     }                                             \
     _LIBMMG5_RETURN(mesh,met,sol,val);            \
   }while(0)
@@ -98,6 +97,9 @@ int MMGS_packMesh(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
   int           imet,imetnew,i;
   int8_t        i1,i2;
 
+  /* Adjacencies may miss after a lack of memory */
+  if ( (!mesh->adja) && !MMGS_hashTria(mesh) ) return 0;
+
   /* Remove non wanted subdomains if needed */
   MMGS_keep_only1Subdomain ( mesh, mesh->info.nsd );
 
-- 
2.43.0


From 7c24350e41a852ec13f2a2edd91b15b3553fa325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:48 +0000
Subject: [PATCH 37/62] fix: mmg2d handed back an unpacked mesh as saveable
 after a refused allocation

---
 src/mmg2d/hash_2d.c  | 14 +++++++++++---
 src/mmg2d/libmmg2d.c | 27 ++++++++++++++++++---------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/mmg2d/hash_2d.c b/src/mmg2d/hash_2d.c
index 080d525..99e9d86 100644
--- a/src/mmg2d/hash_2d.c
+++ b/src/mmg2d/hash_2d.c
@@ -595,7 +595,8 @@ int MMG2D_isQuadEdgeToPack(MMG5_pMesh mesh,MMG5_int k,int8_t i) {
  * \param sol pointer to a solution structure.
  * \param met pointer to a solution structure.
  *
- * \return 0 if memory problem (uncomplete mesh), 1 otherwise.
+ * \return 0 if memory problem (mesh not packed), -1 if memory problem for edges
+ * only (mesh without edges), 1 otherwise.
  *
  * Pack the mesh and metric and create explicitly all the mesh structures
  * (edges).
@@ -707,8 +708,15 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
       mesh->na = 0;
     else {
       /* We have enough memory to allocate the edge table */
-      MMG5_SAFE_CALLOC(mesh->edge,(mesh->namax+1),MMG5_Edge, return 0);
+      MMG5_SAFE_CALLOC(mesh->edge,(mesh->namax+1),MMG5_Edge,
+                       mesh->memCur -= (mesh->namax+1)*sizeof(MMG5_Edge);
+                       memWarn=1);
+    }
 
+    if ( memWarn ) {
+      mesh->na = 0;
+    }
+    else {
       nt = 0;
       /* Edges stored in triangles */
       for (k=1; k<=mesh->nt; k++) {
@@ -917,7 +925,7 @@ int MMG2D_pack(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol met) {
       fprintf(stdout,"     NUMBER OF EDGES          %8" MMG5_PRId "\n",mesh->na);
   }
 
-  if ( memWarn ) return 0;
+  if ( memWarn ) return -1;
 
   return 1;
 }
diff --git a/src/mmg2d/libmmg2d.c b/src/mmg2d/libmmg2d.c
index 892b952..33cf211 100644
--- a/src/mmg2d/libmmg2d.c
+++ b/src/mmg2d/libmmg2d.c
@@ -32,7 +32,8 @@
  */
 #define MMG2D_RETURN_AND_PACK(mesh,met,sol,val)do \
   {                                               \
-    if ( !MMG2D_pack(mesh,met,sol) ) {            \
+    int ier_pack = MMG2D_pack(mesh,met,sol);      \
+    if ( ier_pack < 1 ) {                         \
       mesh->npi = mesh->np;                       \
       mesh->nti = mesh->nt;                       \
       mesh->nai = mesh->na;                       \
@@ -40,7 +41,8 @@
       mesh->xt  = 0;                              \
       if ( met ) { met->npi  = met->np; }         \
       if ( sol ) { sol->npi  = sol->np; }         \
-      return MMG5_LOWFAILURE;                     \
+      return ier_pack ? MMG5_LOWFAILURE           \
+        : MMG5_STRONGFAILURE;                     \
     }                                             \
     _LIBMMG5_RETURN(mesh,met,sol,val);            \
   }while(0)
@@ -61,6 +63,7 @@ void MMG2D_Set_commonFunc(void) {
 }
 
 int MMG2D_mmg2dlib(MMG5_pMesh mesh,MMG5_pSol met) {
+  int       ier;
   MMG5_pSol sol=NULL; // unused
   mytime    ctim[TIMEMAX];
   char      stim[32];
@@ -193,14 +196,14 @@ int MMG2D_mmg2dlib(MMG5_pMesh mesh,MMG5_pSol met) {
   if ( mesh->info.imprim > 0  ||  mesh->info.imprim < -1 ) {
     if ( !MMG2D_outqua(mesh,met) ) {
       if ( !MMG5_unscaleMesh(mesh,met,NULL) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
-      _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+      MMG2D_RETURN_AND_PACK(mesh,met,sol,MMG5_LOWFAILURE);
     }
   }
 
   /* Mesh analysis */
   if (! MMG2D_analys(mesh) ) {
     if ( !MMG5_unscaleMesh(mesh,met,NULL) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
-    _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+    MMG2D_RETURN_AND_PACK(mesh,met,sol,MMG5_LOWFAILURE);
   }
 
   if ( mesh->info.ddebug && !MMG5_chkmsh(mesh,1,0) )  _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
@@ -246,7 +249,8 @@ int MMG2D_mmg2dlib(MMG5_pMesh mesh,MMG5_pSol met) {
 
   /* Unscale mesh */
   if ( !MMG5_unscaleMesh(mesh,met,NULL) )  _LIBMMG5_RETURN(mesh,met,sol,MMG5_STRONGFAILURE);
-  if (!MMG2D_pack(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  ier = MMG2D_pack(mesh,met,sol);
+  if ( ier < 1 ) _LIBMMG5_RETURN(mesh,met,sol,ier ? MMG5_LOWFAILURE : MMG5_STRONGFAILURE);
 
   chrono(OFF,&(ctim[1]));
 
@@ -303,6 +307,7 @@ int MMG2D_restart(MMG5_pMesh mesh) {
 }
 
 int MMG2D_mmg2dmesh(MMG5_pMesh mesh,MMG5_pSol met) {
+  int       ier;
   MMG5_pSol sol=NULL; // unused
   mytime    ctim[TIMEMAX];
   char      stim[32];
@@ -506,7 +511,8 @@ int MMG2D_mmg2dmesh(MMG5_pMesh mesh,MMG5_pSol met) {
   chrono(ON,&(ctim[1]));
   if ( mesh->info.imprim > 0 )  fprintf(stdout,"\n  -- MESH PACKED UP\n");
 
-  if (!MMG2D_pack(mesh,met,sol) ) _LIBMMG5_RETURN(mesh,met,sol,MMG5_LOWFAILURE);
+  ier = MMG2D_pack(mesh,met,sol);
+  if ( ier < 1 ) _LIBMMG5_RETURN(mesh,met,sol,ier ? MMG5_LOWFAILURE : MMG5_STRONGFAILURE);
 
   chrono(OFF,&(ctim[1]));
 
@@ -522,6 +528,7 @@ int MMG2D_mmg2dmesh(MMG5_pMesh mesh,MMG5_pSol met) {
 }
 
 int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
+  int       ier;
   MMG5_pSol met=NULL;
   mytime    ctim[TIMEMAX];
   char      stim[32];
@@ -796,9 +803,10 @@ int MMG2D_mmg2dls(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_pSol umet) {
   if ( mesh->info.imprim > 0 )  fprintf(stdout,"\n  -- MESH PACKED UP\n");
 
   /* Pack mesh */
-  if (!MMG2D_pack(mesh,sol,met) ) {
+  ier = MMG2D_pack(mesh,sol,met);
+  if ( ier < 1 ) {
     if ( mettofree ) { MMG5_SAFE_FREE (met); }
-    _LIBMMG5_RETURN(mesh,sol,met,MMG5_LOWFAILURE);
+    _LIBMMG5_RETURN(mesh,sol,met,ier ? MMG5_LOWFAILURE : MMG5_STRONGFAILURE);
   }
 
   chrono(OFF,&(ctim[1]));
@@ -1008,7 +1016,8 @@ int MMG2D_mmg2dmov(MMG5_pMesh mesh,MMG5_pSol met,MMG5_pSol disp) {
   if ( mesh->info.imprim > 0 )  fprintf(stdout,"\n  -- MESH PACKED UP\n");
 
   /* Pack mesh */
-  if (!MMG2D_pack(mesh,met,disp) ) _LIBMMG5_RETURN(mesh,met,disp,MMG5_LOWFAILURE);
+  ier = MMG2D_pack(mesh,met,disp);
+  if ( ier < 1 ) _LIBMMG5_RETURN(mesh,met,disp,ier ? MMG5_LOWFAILURE : MMG5_STRONGFAILURE);
 
   chrono(OFF,&(ctim[1]));
 
-- 
2.43.0


From 8739b1fa4d4683513782fa7ddad7e574880b6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:23 +0000
Subject: [PATCH 38/62] fix: reset the Scotch random generator so that
 renumbering does not depend on earlier runs

---
 src/common/librnbg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/librnbg.c b/src/common/librnbg.c
index 65ed816..5243373 100644
--- a/src/common/librnbg.c
+++ b/src/common/librnbg.c
@@ -80,6 +80,10 @@ int MMG5_kPartBoxCompute(SCOTCH_Graph *graf, MMG5_int vertNbr, MMG5_int boxVertN
   MMG5_ADD_MEM(mesh,2*vertNbr*sizeof(SCOTCH_Num),"sortPartTb",return 1);
   MMG5_SAFE_CALLOC(sortPartTb,2*vertNbr,SCOTCH_Num,return 0);
 
+  /* Make the partition independent of the previous calls to Scotch in the
+   * process */
+  SCOTCH_randomReset();
+
   /* Partionning the graph */
   if ( 0!=SCOTCH_graphMap(graf, &arch, &strat, sortPartTb) ) {
     perror("scotch_graphMap");
-- 
2.43.0


From a6abf5ca29c56eb306057c89da8c6638f3414057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 39/62] fix: mmg2d: edge enforcement no longer seeded by the
 clock

---
 src/mmg2d/enforcement_2d.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/enforcement_2d.c b/src/mmg2d/enforcement_2d.c
index 490c792..bdf3118 100644
--- a/src/mmg2d/enforcement_2d.c
+++ b/src/mmg2d/enforcement_2d.c
@@ -38,6 +38,7 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
   MMG5_int        list[MMG5_TRIA_LMAX],list2[3];
   MMG5_int        k,l,kk,nex,kdep,lon,iel;
   int             iare,ied;
+  uint32_t        seed;
   MMG5_int        ia,ib,ilon,rnd,idep,*adja,ir,adj;
   int8_t          i,i1,i2,j;
 //  int       iadr2,*adja2,ndel,iadr,ped0,ped1;
@@ -183,10 +184,13 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
 
       /* Randomly swap edges in the list, while... */
       ilon = lon;
-      srand(time(NULL));
+      seed = 1;
 
       while ( ilon > 0 ) {
-        rnd = ( rand() % lon );
+        /* Local generator: the result must depend neither on the clock nor on
+         * the state of the generator of the calling process */
+        seed = 1103515245u*seed + 12345u;
+        rnd = ( (seed >> 16) & 0x7fff ) % lon;
         k   = list[rnd] / 3;
 
         /* Check for triangle k in the pipe until one triangle with base+1 is met (indicating that it is
-- 
2.43.0


From 0729239646482062ef3a4e7fc66d1e597e059cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:59 +0000
Subject: [PATCH 40/62] fix: mmg2d: edge enforcement gives up on degenerate
 configurations instead of looping for ever

---
 src/mmg2d/enforcement_2d.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/enforcement_2d.c b/src/mmg2d/enforcement_2d.c
index bdf3118..de91d65 100644
--- a/src/mmg2d/enforcement_2d.c
+++ b/src/mmg2d/enforcement_2d.c
@@ -39,12 +39,12 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
   MMG5_int        k,l,kk,nex,kdep,lon,iel;
   int             iare,ied;
   uint32_t        seed;
-  MMG5_int        ia,ib,ilon,rnd,idep,*adja,ir,adj;
+  MMG5_int        ia,ib,ilon,maxit,rnd,idep,*adja,ir,adj;
   int8_t          i,i1,i2,j;
 //  int       iadr2,*adja2,ndel,iadr,ped0,ped1;
   static int8_t   mmgWarn0=0,mmgWarn1=0,mmgWarn2=0,mmgWarn3=0;
   static int8_t   mmgWarn4=0,mmgWarn5=0,mmgWarn6=0,mmgWarn7=0;
-  static int8_t   mmgWarn8=0;
+  static int8_t   mmgWarn8=0,mmgWarn9=0;
 
   nex = 0;
 
@@ -185,8 +185,20 @@ int MMG2D_bdryenforcement(MMG5_pMesh mesh,MMG5_pSol sol) {
       /* Randomly swap edges in the list, while... */
       ilon = lon;
       seed = 1;
+      maxit = 1000 + 100*lon*lon;
 
       while ( ilon > 0 ) {
+        /* Degenerate configurations (aligned points) may have no admissible
+         * swap: give up instead of looping for ever */
+        if ( !maxit-- ) {
+          if ( !mmgWarn9 ) {
+            mmgWarn9 = 1;
+            fprintf(stderr,"\n  ## Error: %s: unable to force at least"
+                    " 1 edge (%" MMG5_PRId " %" MMG5_PRId ").\n",__func__,
+                    MMG2D_indPt(mesh,ia),MMG2D_indPt(mesh,ib));
+          }
+          return 0;
+        }
         /* Local generator: the result must depend neither on the clock nor on
          * the state of the generator of the calling process */
         seed = 1103515245u*seed + 12345u;
-- 
2.43.0


From 47c867aa993b1fd2dc60a1d21886405c50064aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 41/62] fix: mmg2d: mesh generation: the removal of subdomains
 left dangling adjacencies and vertices

---
 src/mmg2d/mmg2d2.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/mmg2d/mmg2d2.c b/src/mmg2d/mmg2d2.c
index ff211ad..2cc96c1 100644
--- a/src/mmg2d/mmg2d2.c
+++ b/src/mmg2d/mmg2d2.c
@@ -322,7 +322,7 @@ int MMG2D_markSD(MMG5_pMesh mesh) {
   MMG5_pEdge   ped;
   MMG5_pPoint  ppt;
   MMG5_int     k,l,iadr,*adja,ped0,ped1,ipil,ncurc,nref;
-  MMG5_int     kinit,nt,nsd,ip1,ip2,ip3,ip4,ned,iel;
+  MMG5_int     kinit,nt,ip1,ip2,ip3,ip4,ned,iel;
   int          voy;
   int8_t       i,i1,i2;
   MMG5_int     *list;
@@ -456,16 +456,9 @@ int MMG2D_markSD(MMG5_pMesh mesh) {
   MMG2D_delPt(mesh,ip3);
   MMG2D_delPt(mesh,ip4);
 
-  if(mesh->info.nsd) {
-    nsd = mesh->info.nsd;
-    nt = mesh->nt;
-    for(k=1 ; k<=nt ; k++) {
-      pt = &mesh->tria[k];
-      if ( !MG_EOK(pt) ) continue;
-      if ( pt->ref == nsd ) continue;
-      MMG2D_delElt(mesh,k);
-    }
-  }
+  /* Keep only one subdomain if asked: adjacencies and vertices of the other
+   * ones have to be removed too */
+  MMG2D_keep_only1Subdomain ( mesh, mesh->info.nsd );
 
   /* Remove vertex*/
   for (k=1; k<=mesh->nt; k++) {
-- 
2.43.0


From 5cdc23a06872b66027ba47e7f2498ecfafd55448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:04 +0000
Subject: [PATCH 42/62] fix: mmg2d: Set_edge(s) cleared the boundary tags of
 the edge instead of setting them

---
 src/mmg2d/API_functions_2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 76bd671..da8851a 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1263,7 +1263,7 @@ int MMG2D_Set_edge(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int ref, MMG5
   pt->a = v0;
   pt->b = v1;
   pt->ref  = ref;
-  pt->tag &= MG_REF + MG_BDY;
+  pt->tag |= MG_REF + MG_BDY;
 
   mesh->point[pt->a].tag &= ~MG_NUL;
   mesh->point[pt->b].tag &= ~MG_NUL;
@@ -1380,7 +1380,7 @@ int MMG2D_Set_edges(MMG5_pMesh mesh, MMG5_int *edges, MMG5_int *refs) {
     mesh->edge[i].b    = edges[j+1];
     if ( refs != NULL )
       mesh->edge[i].ref  = refs[i-1];
-    mesh->edge[i].tag &= MG_REF+MG_BDY;
+    mesh->edge[i].tag |= MG_REF+MG_BDY;
 
     mesh->point[mesh->edge[i].a].tag &= ~MG_NUL;
     mesh->point[mesh->edge[i].b].tag &= ~MG_NUL;
-- 
2.43.0


From 730acdf2c7709b5a306d5b7b69c2da179008f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:24 +0000
Subject: [PATCH 43/62] fix: mmg2d: edge enforcement: robust detection of the
 crossed triangles, no walk out of the mesh

---
 src/mmg2d/locate_2d.c | 89 +++++++++++--------------------------------
 1 file changed, 23 insertions(+), 66 deletions(-)

diff --git a/src/mmg2d/locate_2d.c b/src/mmg2d/locate_2d.c
index 3b95a91..6900562 100644
--- a/src/mmg2d/locate_2d.c
+++ b/src/mmg2d/locate_2d.c
@@ -128,9 +128,9 @@ int MMG2D_cutEdge(MMG5_pMesh mesh,MMG5_pTria pt,MMG5_pPoint ppa,MMG5_pPoint ppb)
    it does not intersect k, and return -3 if edge ia-ib is one edge of k*/
 int MMG2D_cutEdgeTriangle(MMG5_pMesh mesh,MMG5_int k,MMG5_int ia,MMG5_int ib) {
   MMG5_pTria   pt;
-  MMG5_pPoint  p1,p2,p3,ppa,ppb;
-  double       a11,a21,a12,a22,area1,area2,area3,prod1,prod2,prod3;
-  int          ibreak,iare;
+  MMG5_pPoint  ppt,ppa,ppb;
+  double       a11,a21,a12,a22,area;
+  int          nvert,npos,nneg;
   int8_t       i;
 
   ppa = &mesh->point[ia];
@@ -138,77 +138,31 @@ int MMG2D_cutEdgeTriangle(MMG5_pMesh mesh,MMG5_int k,MMG5_int ia,MMG5_int ib) {
 
   pt = &mesh->tria[k];
   if ( !MG_EOK(pt) ) return 0;
-  ibreak = 0;
 
-  if ( pt->v[0] == ib || pt->v[1] == ib || pt->v[2] == ib) ibreak = 1;
-
-  p1 = &mesh->point[pt->v[0]];
-  p2 = &mesh->point[pt->v[1]];
-  p3 = &mesh->point[pt->v[2]];
-
-  /* Calculation of the areas ia,ib,pi*/
   a11 = ppb->c[0] - ppa->c[0];
   a21 = ppb->c[1] - ppa->c[1];
 
-  a12 = p1->c[0] - ppa->c[0];
-  a22 = p1->c[1] - ppa->c[1];
-  area1 = a11*a22 - a12*a21;
-
-  a12 = p2->c[0] - ppa->c[0];
-  a22 = p2->c[1] - ppa->c[1];
-  area2 = a11*a22 - a12*a21;
-
-  a12 = p3->c[0] - ppa->c[0];
-  a22 = p3->c[1] - ppa->c[1];
-  area3 = a11*a22 - a12*a21;
-
-  prod1 = area1*area2;
-  prod2 = area3*area2;
-  prod3 = area3*area1;
-
-  /* Both edges p2p3 and p1p3 corresponding to prod2 and prod3 are cut by edge ia,ib */
-  if ( prod1 > 0 && ((prod2 < 0 || prod3 < 0))) {
-    if ( (iare = MMG2D_cutEdge(mesh,pt,ppa,ppb)) ) {
-      return iare;
-    }
-  }
-
-  /* Both edges corresponding to prod1 and prod3 are cut by edge ia,ib */
-  if ( prod2 > 0 && ((prod1 < 0 || prod3 < 0))) {
-    if ( (iare = MMG2D_cutEdge(mesh,pt,ppa,ppb)) ) {
-      return iare;
-    }
-  }
-
-  /* Both edges corresponding to prod1 and prod2 are cut by edge ia,ib */
-  if ( prod3 > 0 && ((prod2 < 0 || prod1 < 0))) {
-    if ( (iare = MMG2D_cutEdge(mesh,pt,ppa,ppb)) ) {
-      return iare;
+  /* Side of ia-ib on which the vertices that differ from ia and ib lie: no
+   * barycentric coordinates here because they are inaccurate in the thin
+   * triangles created by the successive swaps */
+  nvert = npos = nneg = 0;
+  for ( i=0; i<3; i++ ) {
+    if ( pt->v[i] == ia || pt->v[i] == ib ) {
+      nvert++;
+      continue;
     }
+    ppt  = &mesh->point[pt->v[i]];
+    a12  = ppt->c[0] - ppa->c[0];
+    a22  = ppt->c[1] - ppa->c[1];
+    area = a11*a22 - a12*a21;
+    if ( area > 0. )      npos++;
+    else if ( area < 0. ) nneg++;
   }
 
-  /* Case where one vertex of pt is ia */
-  for(i=0; i<3; i++){
-    if ( pt->v[i] == ia || ibreak ) {
-      /* One vertex is ia, and the opposite edge is frankly crossed */
-      if ( (prod1 < 0) || (prod2 < 0) || (prod3 < 0) ) {
-        if ( (iare = MMG2D_cutEdge(mesh,pt,ppa,ppb)) ) {
-          return iare;
-        }
-      }
-      else {
-        /*check if ia-ib edge de pt*/
-        if ( ibreak && ( pt->v[(i+1)%3] == ia || pt->v[(i+2)%3] == ia ) ) {
-          return -3;
-        }
-        else if ( pt->v[i] == ia && ( pt->v[(i+1)%3] == ib || pt->v[(i+2)%3] == ib ) ) {
-          return -3;
-        }
-      }
-    }
-  }
+  /* ia-ib is an edge of pt */
+  if ( nvert == 2 ) return -3;
 
-  return 0;
+  return ( npos && nneg ) ? 1 : 0;
 }
 
 /**
@@ -359,6 +313,9 @@ int MMG2D_locateEdge(MMG5_pMesh mesh,MMG5_int ia,MMG5_int ib,MMG5_int* kdep,MMG5
 
   mesh->base += 2;
   do {
+    /* The path from ia to ib has left the mesh */
+    if ( !k ) return 0;
+
     pt = &mesh->tria[k];
 
     pt->base = mesh->base;
-- 
2.43.0


From cf03b7db35c59aac7888c4c686564395bc2ffb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:33 +0000
Subject: [PATCH 44/62] fix: mmg2d: edge enforcement no longer creates flat
 triangles

---
 src/mmg2d/swapar_2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg2d/swapar_2d.c b/src/mmg2d/swapar_2d.c
index 1522d63..119634e 100644
--- a/src/mmg2d/swapar_2d.c
+++ b/src/mmg2d/swapar_2d.c
@@ -78,7 +78,7 @@ int MMG2D_swapdelone(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int8_t i,double cr
   arean2 = MMG2D_quickarea(mesh->point[pt0->v[0]].c,mesh->point[pt0->v[1]].c,mesh->point[pt0->v[2]].c);
   if ( cal2 > crit )  return 0;
 
-  if ( arean1 < 0.0 || arean2 < 0.0 || fabs((area1+area2)-(arean1+arean2)) > MMG2D_EPSD ) {
+  if ( arean1 < MMG5_EPSOK || arean2 < MMG5_EPSOK || fabs((area1+area2)-(arean1+arean2)) > MMG2D_EPSD ) {
     if(mesh->info.ddebug) printf("  ## Warning: non convex configuration\n");
     return 0;
   }
-- 
2.43.0


From 1d6e2181e0371a82fd5c9c45d260bb296ff1771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:15 +0000
Subject: [PATCH 45/62] fix: binary Medit solutions: no newline between the
 values

---
 src/mmg2d/inout_2d.c | 6 +++---
 src/mmg3d/inout_3d.c | 6 +++---
 src/mmgs/inout_s.c   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 685264e..3d2185b 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -1650,7 +1650,7 @@ int MMG2D_saveSol(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
     if ( !MG_VOK(ppt) )  continue;
 
     MMG2D_writeDoubleSol(sol,inm,bin,k,gmsh);
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   /* End file */
@@ -1741,7 +1741,7 @@ int MMG2D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename) {
         MMG2D_writeDoubleSol(psl,inm,bin,k,gmsh);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   MMG5_saveSolAtTrianglesHeader( mesh,inm,(*sol)[0].ver,bin,&bpos,mesh->nsols,
@@ -1757,7 +1757,7 @@ int MMG2D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename) {
         MMG2D_writeDoubleSol(psl,inm,bin,k,gmsh);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   MMG5_SAFE_FREE(type);
diff --git a/src/mmg3d/inout_3d.c b/src/mmg3d/inout_3d.c
index 84701a8..6123184 100644
--- a/src/mmg3d/inout_3d.c
+++ b/src/mmg3d/inout_3d.c
@@ -2335,7 +2335,7 @@ int MMG3D_saveSol(MMG5_pMesh mesh,MMG5_pSol met, const char *filename) {
     if ( !MG_VOK(ppt) ) continue;
 
     MMG5_writeDoubleSol3D(mesh,met,inm,bin,k,1);
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   /* End file */
@@ -2403,7 +2403,7 @@ int MMG3D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   MMG5_saveSolAtTetrahedraHeader( mesh,inm,(*sol)[0].ver,bin,&bpos,mesh->nsols,
@@ -2419,7 +2419,7 @@ int MMG3D_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
 
diff --git a/src/mmgs/inout_s.c b/src/mmgs/inout_s.c
index 222717b..25ccc0c 100644
--- a/src/mmgs/inout_s.c
+++ b/src/mmgs/inout_s.c
@@ -1503,7 +1503,7 @@ int MMGS_saveSol(MMG5_pMesh mesh,MMG5_pSol met, const char *filename) {
     if ( !MG_VOK(ppt) ) continue;
 
     MMG5_writeDoubleSol3D(mesh,met,inm,bin,k,1);
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   /* end of file */
@@ -1572,7 +1572,7 @@ int MMGS_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   MMG5_saveSolAtTrianglesHeader( mesh,inm,(*sol)[0].ver,bin,&bpos,mesh->nsols,
@@ -1588,7 +1588,7 @@ int MMGS_saveAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
         MMG5_writeDoubleSol3D(mesh,psl,inm,bin,k,0);
       }
     }
-    fprintf(inm,"\n");
+    if ( !bin )  fprintf(inm,"\n");
   }
 
   MMG5_SAFE_FREE(type);
-- 
2.43.0


From 924df8a3d055409f965634e94c9f5535be869da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:15 +0000
Subject: [PATCH 46/62] fix: Gmsh ascii files: save scalars and vectors with 15
 digits, as the tensors

---
 src/common/inout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index bef21a1..626796c 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -1987,7 +1987,7 @@ int MMG5_saveMshMesh(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename,
         if ( !bin ) {
           fprintf(inm,"%" MMG5_PRId "",ppt->tmp);
           for ( i=0; i<typ; ++i )
-            fprintf(inm," %lg",dbuf[i]);
+            fprintf(inm," %.15lg",dbuf[i]);
           fprintf(inm,"\n");
         }
         else {
-- 
2.43.0


From d13f100db7a0c20de7966bd388fc66a65813e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:15 +0000
Subject: [PATCH 47/62] fix: Gmsh files: 2D vector fields have 3 components in
 the file

---
 src/common/inout.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 626796c..8f9e63d 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -1349,23 +1349,23 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
           }
         }
       }
-      /* vector displacement only */
+      /* vector displacement only: 3 components in the file, even in 2D */
       else if ( psl->size == psl->dim ) {
         if ( psl->ver == 1 ) {
           for (k=1; k<=psl->np; k++) {
             if(!bin){
               MMG_FSCANF((*inm),"%d ",&idx);
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FSCANF((*inm),"%f ",&fbuf[0]);
-                psl->m[psl->dim*idx+i] = fbuf[0];
+                if ( i < psl->dim )  psl->m[psl->dim*idx+i] = fbuf[0];
               }
             } else {
               MMG_FREAD(&idx,MMG5_SW,1, (*inm));
               if(iswp) idx = MMG5_swapbin(idx);
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FREAD(&fbuf[0],MMG5_SW,1,(*inm));
                 if(iswp) fbuf[0]=MMG5_swapf(fbuf[0]);
-                psl->m[psl->dim*idx+i] = fbuf[0];
+                if ( i < psl->dim )  psl->m[psl->dim*idx+i] = fbuf[0];
               }
             }
           }
@@ -1375,19 +1375,19 @@ int MMG5_loadMshMesh_part2(MMG5_pMesh mesh,MMG5_pSol *sol,FILE **inm,
             if(!bin){
               MMG_FSCANF((*inm),"%d ",&idx);
 
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FSCANF((*inm),"%lf ",&dbuf[0]);
-                psl->m[psl->dim*idx+i] = dbuf[0];
+                if ( i < psl->dim )  psl->m[psl->dim*idx+i] = dbuf[0];
               }
 
             } else {
               MMG_FREAD(&idx,MMG5_SW,1, (*inm));
               if(iswp) idx = MMG5_swapbin(idx);
 
-              for (i=0; i<psl->dim; i++) {
+              for (i=0; i<3; i++) {
                 MMG_FREAD(&dbuf[0],MMG5_SD,1,(*inm));
                 if(iswp) dbuf[0]=MMG5_swapd(dbuf[0]);
-                psl->m[psl->dim*idx+i] = dbuf[0];
+                if ( i < psl->dim )  psl->m[psl->dim*idx+i] = dbuf[0];
               }
 
             }
-- 
2.43.0


From 2dbb907b6663f3b014daf5d0292282fa7df94efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:15 +0000
Subject: [PATCH 48/62] fix: Gmsh files: full tensors overflowed the buffer
 when saved back

---
 src/common/inout.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 8f9e63d..7af97a9 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -1590,7 +1590,7 @@ int MMG5_saveMshMesh(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename,
   MMG5_pQuad  pq;
   MMG5_pEdge  pa;
   MMG5_pSol   psl;
-  double      dbuf[6];
+  double      dbuf[9];
   int         bin,i,typ;
   MMG5_int    header[3],nq,ne,npr,np,nt,na,k,iadr,nelts,word;
   int         isol,nsols;
@@ -1981,8 +1981,16 @@ int MMG5_saveMshMesh(MMG5_pMesh mesh,MMG5_pSol *sol,const char *filename,
         if ( psl->dim == 2 )
           dbuf[2] = 0; // z-component for a vector field
 
-        for ( i=0; i<psl->size; ++i )
-          dbuf[i] = psl->m[iadr+i];
+        if ( psl->dim == 2 && psl->size == 4 ) {
+          /* full tensor: 3x3 matrix in the file */
+          dbuf[0] = psl->m[iadr  ]; dbuf[1] = psl->m[iadr+1]; dbuf[2] = 0.;
+          dbuf[3] = psl->m[iadr+2]; dbuf[4] = psl->m[iadr+3]; dbuf[5] = 0.;
+          dbuf[6] = 0.; dbuf[7] = 0.; dbuf[8] = 1.;
+        }
+        else {
+          for ( i=0; i<psl->size; ++i )
+            dbuf[i] = psl->m[iadr+i];
+        }
 
         if ( !bin ) {
           fprintf(inm,"%" MMG5_PRId "",ppt->tmp);
-- 
2.43.0


From 21030b8e3cb3893b3c443790afcaad28de3021d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:19 +0000
Subject: [PATCH 49/62] fix: mmg2d: byte-swapped binary solutions in double
 precision

---
 src/mmg2d/inout_2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 3d2185b..3793ee3 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -886,7 +886,7 @@ int MMG2D_readDoubleSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
     }
     else {
       MMG_FREAD(&dbuf,MMG5_SD,1,inm);
-      if ( iswp ) dbuf=MMG5_swapf(dbuf);
+      if ( iswp ) dbuf=MMG5_swapd(dbuf);
       sol->m[sol->size*pos+i] = (double)dbuf;
     }
   }
-- 
2.43.0


From 652cfba35c341f64c6417b6d3eab2018590236b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:19 +0000
Subject: [PATCH 50/62] fix: node files: 15 significant digits whatever the
 scale of the mesh

---
 src/common/inout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 7af97a9..383053f 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -2808,7 +2808,7 @@ int MMG5_saveNode(MMG5_pMesh mesh,const char *filename) {
 
       /* Save coordinates */
       for ( i=0; i<mesh->dim; ++i ) {
-        fprintf(inm, " %.15lf",ppt->c[i]);
+        fprintf(inm, " %.15lg",ppt->c[i]);
       }
 
       /* Save bdy marker */
-- 
2.43.0


From d0e7dc21ddf0d4a6202724545d6149e10fa83bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:20 +0000
Subject: [PATCH 51/62] fix: mmg2d: vector and tensor solutions read with the
 3dMedit option

---
 src/mmg2d/inout_2d.c | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/mmg2d/inout_2d.c b/src/mmg2d/inout_2d.c
index 3793ee3..3025bd2 100644
--- a/src/mmg2d/inout_2d.c
+++ b/src/mmg2d/inout_2d.c
@@ -837,6 +837,7 @@ int MMG2D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
  * \param bin 1 if binary file
  * \param iswp Endianess
  * \param index of the readed solution
+ * \param in3d 1 if the file stores 3D data
  *
  * \return 1 if success, -1 if fail
  *
@@ -844,9 +845,9 @@ int MMG2D_loadMshMesh_and_allData(MMG5_pMesh mesh,MMG5_pSol *sol,const char *fil
  *
  */
 static inline
-int MMG2D_readFloatSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
+int MMG2D_readFloatSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos,int in3d) {
   float       fbuf;
-  int         i;
+  int         i,n;
 
   for (i=0; i<sol->size; i++) {
     if ( !bin ) {
@@ -859,6 +860,18 @@ int MMG2D_readFloatSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
       sol->m[sol->size*pos+i] = (double)fbuf;
     }
   }
+  if ( in3d ) {
+    /* skip the 3D components of the vectors and tensors (-3dMedit option) */
+    n = ( sol->size == 2 ) ? 1 : ( ( sol->size == 3 ) ? 3 : 0 );
+    for (i=0; i<n; i++) {
+      if ( !bin ) {
+        MMG_FSCANF(inm,"%f",&fbuf);
+      }
+      else {
+        MMG_FREAD(&fbuf,MMG5_SW,1,inm);
+      }
+    }
+  }
   return 1;
 }
 
@@ -868,6 +881,7 @@ int MMG2D_readFloatSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
  * \param bin 1 if binary file
  * \param iswp Endianess
  * \param index of the readed solution
+ * \param in3d 1 if the file stores 3D data
  *
  * \return 1 if success, -1 if fail
  *
@@ -875,9 +889,9 @@ int MMG2D_readFloatSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
  *
  */
 static inline
-int MMG2D_readDoubleSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
+int MMG2D_readDoubleSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos,int in3d) {
   double       dbuf;
-  int          i;
+  int          i,n;
 
   for (i=0; i<sol->size; i++) {
     if ( !bin ) {
@@ -890,6 +904,18 @@ int MMG2D_readDoubleSol(MMG5_pSol sol,FILE *inm,int bin,int iswp,MMG5_int pos) {
       sol->m[sol->size*pos+i] = (double)dbuf;
     }
   }
+  if ( in3d ) {
+    /* skip the 3D components of the vectors and tensors (-3dMedit option) */
+    n = ( sol->size == 2 ) ? 1 : ( ( sol->size == 3 ) ? 3 : 0 );
+    for (i=0; i<n; i++) {
+      if ( !bin ) {
+        MMG_FSCANF(inm,"%lf",&dbuf);
+      }
+      else {
+        MMG_FREAD(&dbuf,MMG5_SD,1,inm);
+      }
+    }
+  }
   return 1;
 }
 
@@ -966,13 +992,13 @@ int MMG2D_loadSol(MMG5_pMesh mesh,MMG5_pSol sol,const char *filename) {
   if ( sol->ver == 1 ) {
     /* Single precision */
     for (k=1; k<=sol->np; k++) {
-      if ( MMG2D_readFloatSol(sol,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG2D_readFloatSol(sol,inm,bin,iswp,k,mesh->info.renum>=2) < 0 ) return -1;
     }
   }
   else {
     for (k=1; k<=sol->np; k++) {
       /* Double precision */
-      if ( MMG2D_readDoubleSol(sol,inm,bin,iswp,k) < 0 ) return -1;
+      if ( MMG2D_readDoubleSol(sol,inm,bin,iswp,k,mesh->info.renum>=2) < 0 ) return -1;
     }
   }
 
@@ -1077,7 +1103,7 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol+j;
-        if ( MMG2D_readFloatSol(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG2D_readFloatSol(psl,inm,bin,iswp,k,mesh->info.renum>=2) < 0 ) return -1;
       }
     }
   }
@@ -1086,7 +1112,7 @@ int MMG2D_loadAllSols(MMG5_pMesh mesh,MMG5_pSol *sol, const char *filename) {
     for (k=1; k<=mesh->np; k++) {
       for ( j=0; j<nsols; ++j ) {
         psl = *sol+j;
-        if ( MMG2D_readDoubleSol(psl,inm,bin,iswp,k) < 0 ) return -1;
+        if ( MMG2D_readDoubleSol(psl,inm,bin,iswp,k,mesh->info.renum>=2) < 0 ) return -1;
       }
     }
   }
-- 
2.43.0


From 1c46882c419053f94afa4808c612bd3370fcfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:48 +0000
Subject: [PATCH 52/62] fix: mmg2d: the vector of a vertex is stored at the
 place of this vertex

---
 src/mmg2d/API_functions_2d.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index da8851a..3ec5d62 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -1562,7 +1562,7 @@ int MMG2D_Set_vectorSol(MMG5_pSol met, double vx,double vy, MMG5_int pos) {
     return 0;
   }
 
-  isol = (pos-1) * met->size + 1;
+  isol = pos * met->size;
 
   met->m[isol]   = vx;
   met->m[isol+1] = vy;
@@ -1596,8 +1596,8 @@ int MMG2D_Get_vectorSol(MMG5_pSol met, double* vx, double* vy) {
     return 0;
   }
 
-  *vx = met->m[met->size*(met->npi-1)+1];
-  *vy = met->m[met->size*(met->npi-1)+2];
+  *vx = met->m[met->size*met->npi];
+  *vy = met->m[met->size*met->npi+1];
 
   return 1;
 }
@@ -1616,9 +1616,9 @@ int MMG2D_Set_vectorSols(MMG5_pSol met, double *sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
-    m[1] = sols[j];
-    m[2] = sols[j+1];
+    m = &met->m[j+2];
+    m[0] = sols[j];
+    m[1] = sols[j+1];
   }
 
   return 1;
@@ -1630,10 +1630,10 @@ int MMG2D_Get_vectorSols(MMG5_pSol met, double* sols) {
 
   for ( k=0; k<met->np; ++k ) {
     j = 2*k;
-    m = &met->m[j];
+    m = &met->m[j+2];
 
-    sols[j]   = m[1];
-    sols[j+1] = m[2];
+    sols[j]   = m[0];
+    sols[j+1] = m[1];
   }
 
   return 1;
-- 
2.43.0


From 5f68557c50b24b8eb09e6abfd80c37a56d44e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:48 +0000
Subject: [PATCH 53/62] fix: saveEdge: room for the end of the file name

---
 src/common/inout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/inout.c b/src/common/inout.c
index 383053f..4c25297 100644
--- a/src/common/inout.c
+++ b/src/common/inout.c
@@ -2849,7 +2849,7 @@ int MMG5_saveEdge(MMG5_pMesh mesh,const char *filename,const char *ext) {
   }
 
   /* Name of file */
-  MMG5_SAFE_CALLOC(data,strlen(filename)+strlen(ext),char,return 0);
+  MMG5_SAFE_CALLOC(data,strlen(filename)+strlen(ext)+1,char,return 0);
   strcpy(data,filename);
   ptr = strstr(data,".node");
   if ( ptr ) {
-- 
2.43.0


From 33ac24a8fd8b6df0f67825d90073330c4a65e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 54/62] fix: mmg2d adjacent vertices of a vertex: search all
 triangles when the walk around it does not find it

---
 src/mmg2d/libmmg2d_tools.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mmg2d/libmmg2d_tools.c b/src/mmg2d/libmmg2d_tools.c
index 755c9d5..a724e0d 100644
--- a/src/mmg2d/libmmg2d_tools.c
+++ b/src/mmg2d/libmmg2d_tools.c
@@ -853,11 +853,27 @@ int MMG2D_Get_adjaTri(MMG5_pMesh mesh, MMG5_int kel, MMG5_int listri[3]) {
 
 MMG5_int MMG2D_Get_adjaVertices(MMG5_pMesh mesh, MMG5_int ip, MMG5_int lispoi[MMG2D_LMAX])
 {
-  MMG5_int start;
+  MMG5_int start,k;
+  int      i;
 
   if ( !mesh->tria ) return 0;
 
   start=MMG2D_findTria(mesh,ip);
+
+  /* The walk through the adjacencies may stop on the boundary of a non convex
+   * or non connected domain: look for the point through the whole mesh. */
+  for ( i=0; start && i<3; ++i ) {
+    if ( mesh->tria[start].v[i] == ip ) break;
+  }
+  if ( !start || i == 3 ) {
+    start = 0;
+    for ( k=1; k<=mesh->nt && !start; ++k ) {
+      if ( !MG_EOK(&mesh->tria[k]) ) continue;
+      for ( i=0; i<3; ++i ) {
+        if ( mesh->tria[k].v[i] == ip ) start = k;
+      }
+    }
+  }
   if ( !start ) return 0;
 
   return MMG2D_Get_adjaVerticesFast(mesh,ip,start,lispoi);
-- 
2.43.0


From 31e960a9919b8927e0c262869912540e2f4fabd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 55/62] fix: ends of the 3x3 metric interpolation were
 exchanged

---
 src/common/intmet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/intmet.c b/src/common/intmet.c
index d4ce671..a70f94b 100644
--- a/src/common/intmet.c
+++ b/src/common/intmet.c
@@ -126,7 +126,7 @@ int MMG5_mmgIntmet33_ani(double *m,double *n,double *mr,double s) {
   /* Linear interpolation between sizes */
   for(i=0; i<3; i++) {
     if ( lambda[i] < 0.0 ) return 0;
-    dd = s*sqrt(lambda[i]) + (1.0-s);
+    dd = (1.0-s)*sqrt(lambda[i]) + s;
     dd = dd*dd;
     if ( dd < MMG5_EPSD )  return 0;
     mu[i] = lambda[i]/dd;
-- 
2.43.0


From bb52261335ddb7181b06160c4a0371714b4a05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 56/62] fix: simultaneous reduction of homothetic 3D tensors

---
 src/common/anisosiz.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/common/anisosiz.c b/src/common/anisosiz.c
index 9160905..e3e7984 100644
--- a/src/common/anisosiz.c
+++ b/src/common/anisosiz.c
@@ -1416,8 +1416,8 @@ int MMG5_simred2d(MMG5_pMesh mesh,double *m,double *n,double dm[2],
 int MMG5_simred3d(MMG5_pMesh mesh,double *m,double *n,double dm[3],
                   double dn[3],double vp[3][3] ) {
 
-  double        lambda[3],im[6],imn[9];
-  int           order;
+  double        lambda[3],im[6],imn[9],dd,dev;
+  int           order,k;
   static int8_t mmgWarn0=0;
 
   /* Compute imn = M^{-1}N */
@@ -1443,6 +1443,18 @@ int MMG5_simred3d(MMG5_pMesh mesh,double *m,double *n,double dm[3],
     return 0;
   }
 
+  /* If imn is proportional to the identity up to rounding errors, its
+   * eigenvectors are meaningless: treat the eigenvalue as a triple one */
+  dd = MG_MAX(fabs(imn[0]),MG_MAX(fabs(imn[4]),fabs(imn[8])));
+  dev = MG_MAX(fabs(imn[0]-imn[4]),fabs(imn[4]-imn[8]));
+  for ( k=1; k<8; ++k ) {
+    if ( k != 4 ) dev = MG_MAX(dev,fabs(imn[k]));
+  }
+  if ( dev < MMG5_EPS*dd ) {
+    order = 3;
+    lambda[0] = lambda[1] = lambda[2] = (imn[0]+imn[4]+imn[8])/3.;
+  }
+
   if ( order == 3 ) {
     /* First case : matrices m and n are homothetic: n = lambda0*m */
     if ( (fabs(m[1]) < MMG5_EPS && fabs(m[2]) < MMG5_EPS
-- 
2.43.0


From edf53aaac16177562af53bc3c0ed03a71cce4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 57/62] fix: prism and quadrilateral getters keep their counter
 in the mesh; refuse solution positions below 1

---
 src/common/libmmgtypes.h     |  1 +
 src/mmg2d/API_functions_2d.c | 38 ++++++++++++++++++++-----------
 src/mmg3d/API_functions_3d.c | 43 ++++++++++++++++++------------------
 3 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/common/libmmgtypes.h b/src/common/libmmgtypes.h
index fe75d61..5e59c6e 100644
--- a/src/common/libmmgtypes.h
+++ b/src/common/libmmgtypes.h
@@ -619,6 +619,7 @@ typedef struct {
   int       type; /*!< Type of the mesh */
   MMG5_int  npi,nti,nai,nei,np,na,nt,ne,npmax,namax,ntmax,nemax,xpmax,xtmax;
   MMG5_int  nquad,nprism; /*!< number of quadrangles and prisms */
+  MMG5_int  nquadi,nprismi; /*!< counters of the quadrangles and prisms getters */
   int       nsols; /*!< number of solutions (metric excluded) in the solution file (lower than \a NSOLS_MAX)*/
   MMG5_int  nc1;
   MMG5_int  base; /*!< Used with \a flag to know if an entity has been
diff --git a/src/mmg2d/API_functions_2d.c b/src/mmg2d/API_functions_2d.c
index 3ec5d62..e2233fd 100644
--- a/src/mmg2d/API_functions_2d.c
+++ b/src/mmg2d/API_functions_2d.c
@@ -497,6 +497,7 @@ int MMG2D_Set_meshSize(MMG5_pMesh mesh, MMG5_int np, MMG5_int nt, MMG5_int nquad
   mesh->npi = mesh->np;
   mesh->nti = mesh->nt;
   mesh->nai = mesh->na;
+  mesh->nquadi = mesh->nquad;
 
   /*tester si -m definie : renvoie 0 si pas ok et met la taille min dans info.mem */
   if( mesh->info.mem > 0) {
@@ -1138,10 +1139,9 @@ int MMG2D_Set_quadrilateral(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int
 
 int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                             MMG5_int* ref, int* isRequired) {
-  static MMG5_int nqi = 0;
 
-  if ( nqi == mesh->nquad ) {
-    nqi = 0;
+  if ( mesh->nquadi == mesh->nquad ) {
+    mesh->nquadi = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter of"
               " quadrilaterals.\n",__func__);
@@ -1152,27 +1152,27 @@ int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
     }
   }
 
-  ++nqi;
+  ++mesh->nquadi;
 
-  if ( nqi > mesh->nquad ) {
+  if ( mesh->nquadi > mesh->nquad ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get quadra.\n",__func__);
     fprintf(stderr,"    The number of call of MMG2D_Get_quadrilateral function");
     fprintf(stderr," can not exceed the number of quadra: %" MMG5_PRId "\n ",mesh->nquad);
     return 0;
   }
 
-  *v0  = mesh->quadra[nqi].v[0];
-  *v1  = mesh->quadra[nqi].v[1];
-  *v2  = mesh->quadra[nqi].v[2];
-  *v3  = mesh->quadra[nqi].v[3];
+  *v0  = mesh->quadra[mesh->nquadi].v[0];
+  *v1  = mesh->quadra[mesh->nquadi].v[1];
+  *v2  = mesh->quadra[mesh->nquadi].v[2];
+  *v3  = mesh->quadra[mesh->nquadi].v[3];
 
   if ( ref != NULL ) {
-    *ref = mesh->quadra[nqi].ref;
+    *ref = mesh->quadra[mesh->nquadi].ref;
   }
 
   if ( isRequired != NULL ) {
-    if ( ( mesh->quadra[nqi].tag[0] & MG_REQ) && ( mesh->quadra[nqi].tag[1] & MG_REQ) &&
-         ( mesh->quadra[nqi].tag[2] & MG_REQ) && ( mesh->quadra[nqi].tag[3] & MG_REQ) ) {
+    if ( ( mesh->quadra[mesh->nquadi].tag[0] & MG_REQ) && ( mesh->quadra[mesh->nquadi].tag[1] & MG_REQ) &&
+         ( mesh->quadra[mesh->nquadi].tag[2] & MG_REQ) && ( mesh->quadra[mesh->nquadi].tag[3] & MG_REQ) ) {
       *isRequired = 1;
     }
     else
@@ -1180,7 +1180,7 @@ int MMG2D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
   }
 
   /* The last entity has been got: be ready for another mesh */
-  if ( nqi == mesh->nquad ) nqi = 0;
+  if ( mesh->nquadi == mesh->nquad ) mesh->nquadi = 0;
 
   return 1;
 }
@@ -1453,6 +1453,12 @@ int MMG2D_Set_scalarSol(MMG5_pSol met, double s, MMG5_int pos) {
     return 0;
   }
 
+  if ( pos < 1 ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
+            __func__);
+    fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
+    return 0;
+  }
   if ( pos >= met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
@@ -1652,6 +1658,12 @@ int MMG2D_Set_tensorSol(MMG5_pSol met, double m11, double m12, double m22,
     return 0;
   }
 
+  if ( pos < 1 ) {
+    fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
+            __func__);
+    fprintf(stderr,"    Minimal index of the solution position must be 1.\n");
+    return 0;
+  }
   if ( pos >= met->npmax ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new solution.\n",
             __func__);
diff --git a/src/mmg3d/API_functions_3d.c b/src/mmg3d/API_functions_3d.c
index 736cff8..4742f80 100644
--- a/src/mmg3d/API_functions_3d.c
+++ b/src/mmg3d/API_functions_3d.c
@@ -257,6 +257,8 @@ int MMG3D_setMeshSize_initData(MMG5_pMesh mesh, MMG5_int np, MMG5_int ne, MMG5_i
   mesh->nei = mesh->ne;
   mesh->nti = mesh->nt;
   mesh->nai = mesh->na;
+  mesh->nprismi = mesh->nprism;
+  mesh->nquadi  = mesh->nquad;
 
   return 1;
 }
@@ -756,10 +758,8 @@ int MMG3D_Set_prism(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int v2,
 
 int MMG3D_Get_prism(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                     MMG5_int* v4, MMG5_int* v5, MMG5_int* ref, int* isRequired) {
-  static MMG5_int npri = 0;
-
-  if ( npri == mesh->nprism ) {
-    npri = 0;
+  if ( mesh->nprismi == mesh->nprism ) {
+    mesh->nprismi = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter of prisms.\n",
               __func__);
@@ -770,35 +770,35 @@ int MMG3D_Get_prism(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, M
     }
   }
 
-  ++npri;
+  ++mesh->nprismi;
 
-  if ( npri > mesh->nprism ) {
+  if ( mesh->nprismi > mesh->nprism ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get prism.\n",__func__);
     fprintf(stderr,"    The number of call of MMG3D_Get_prism function");
     fprintf(stderr," can not exceed the number of prism: %" MMG5_PRId "\n ",mesh->nprism);
     return 0;
   }
 
-  *v0  = mesh->prism[npri].v[0];
-  *v1  = mesh->prism[npri].v[1];
-  *v2  = mesh->prism[npri].v[2];
-  *v3  = mesh->prism[npri].v[3];
-  *v4  = mesh->prism[npri].v[4];
-  *v5  = mesh->prism[npri].v[5];
+  *v0  = mesh->prism[mesh->nprismi].v[0];
+  *v1  = mesh->prism[mesh->nprismi].v[1];
+  *v2  = mesh->prism[mesh->nprismi].v[2];
+  *v3  = mesh->prism[mesh->nprismi].v[3];
+  *v4  = mesh->prism[mesh->nprismi].v[4];
+  *v5  = mesh->prism[mesh->nprismi].v[5];
 
   if ( ref != NULL ) {
-    *ref = mesh->prism[npri].ref;
+    *ref = mesh->prism[mesh->nprismi].ref;
   }
 
   if ( isRequired != NULL ) {
-    if ( mesh->prism[npri].tag & MG_REQ )
+    if ( mesh->prism[mesh->nprismi].tag & MG_REQ )
       *isRequired = 1;
     else
       *isRequired = 0;
   }
 
   /* The last entity has been got: be ready for another mesh */
-  if ( npri == mesh->nprism ) npri = 0;
+  if ( mesh->nprismi == mesh->nprism ) mesh->nprismi = 0;
 
   return 1;
 }
@@ -1012,10 +1012,9 @@ int MMG3D_Set_quadrilateral(MMG5_pMesh mesh, MMG5_int v0, MMG5_int v1, MMG5_int
 int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_int* v2, MMG5_int* v3,
                             MMG5_int* ref,int* isRequired) {
   MMG5_pQuad       pq;
-  static MMG5_int  nqi = 0;
 
-  if ( nqi == mesh->nquad ) {
-    nqi = 0;
+  if ( mesh->nquadi == mesh->nquad ) {
+    mesh->nquadi = 0;
     if ( mesh->info.ddebug ) {
       fprintf(stderr,"\n  ## Warning: %s: reset the internal counter"
               " of quadrilaterals.\n",__func__);
@@ -1026,16 +1025,16 @@ int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
     }
   }
 
-  nqi++;
+  mesh->nquadi++;
 
-  if ( nqi > mesh->nquad ) {
+  if ( mesh->nquadi > mesh->nquad ) {
     fprintf(stderr,"\n  ## Error: %s: unable to get quadrilateral.\n",__func__);
     fprintf(stderr,"    The number of call of MMG3D_Get_quadrilateral function");
     fprintf(stderr," can not exceed the number of quadrilaterals: %" MMG5_PRId "\n ",mesh->nquad);
     return 0;
   }
 
-  pq = &mesh->quadra[nqi];
+  pq = &mesh->quadra[mesh->nquadi];
   *v0  = pq->v[0];
   *v1  = pq->v[1];
   *v2  = pq->v[2];
@@ -1052,7 +1051,7 @@ int MMG3D_Get_quadrilateral(MMG5_pMesh mesh, MMG5_int* v0, MMG5_int* v1, MMG5_in
   }
 
   /* The last entity has been got: be ready for another mesh */
-  if ( nqi == mesh->nquad ) nqi = 0;
+  if ( mesh->nquadi == mesh->nquad ) mesh->nquadi = 0;
 
   return 1;
 }
-- 
2.43.0


From 057fd41139cf5b86f67fd40ccc7142df8df461e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 58/62] fix: mmgs refused to see one local parameter too many
 (heap overflow)

---
 src/mmgs/API_functions_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmgs/API_functions_s.c b/src/mmgs/API_functions_s.c
index 52da79a..350da1f 100644
--- a/src/mmgs/API_functions_s.c
+++ b/src/mmgs/API_functions_s.c
@@ -1600,7 +1600,7 @@ int MMGS_Set_localParameter(MMG5_pMesh mesh,MMG5_pSol sol, int typ, MMG5_int ref
     fprintf(stderr," values in local parameters structure. \n");
     return 0;
   }
-  if ( mesh->info.npari > mesh->info.npar ) {
+  if ( mesh->info.npari >= mesh->info.npar ) {
     fprintf(stderr,"\n  ## Error: %s: unable to set a new local parameter.\n",
             __func__);
     fprintf(stderr,"    max number of local parameters: %d\n",mesh->info.npar);
-- 
2.43.0


From 2a270787bfb689d8b89ad6d10a2bbc8a5d00650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 59/62] fix: level-set value subtracted twice in mmg3d surface
 mode

---
 src/mmg3d/mmg3d2s.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mmg3d/mmg3d2s.c b/src/mmg3d/mmg3d2s.c
index 29cd570..5a7db52 100755
--- a/src/mmg3d/mmg3d2s.c
+++ b/src/mmg3d/mmg3d2s.c
@@ -130,15 +130,15 @@ int MMG3D_snpval_lssurf(MMG5_pMesh mesh,MMG5_pSol sol) {
   for (k=1; k<=mesh->np; k++) {
     p0 = &mesh->point[k];
     if ( !MG_VOK(p0) ) continue;
-    if ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPS ) {
+    if ( fabs(sol->m[k]) < MMG5_EPS ) {
       if ( mesh->info.ddebug )
         fprintf(stderr,"  ## Warning: %s: snapping value %" MMG5_PRId "; "
                 "previous value: %E.\n",__func__,k,fabs(sol->m[k]));
 
-      tmp[k] = ( fabs(sol->m[k]-mesh->info.ls) < MMG5_EPSD ) ?
-        (mesh->info.ls-100.0*MMG5_EPS) : sol->m[k];
+      tmp[k] = ( fabs(sol->m[k]) < MMG5_EPSD ) ?
+        (-100.0*MMG5_EPS) : sol->m[k];
       p0->flag = 1;
-      sol->m[k] = mesh->info.ls;
+      sol->m[k] = 0.0;
       ns++;
     }
   }
@@ -192,8 +192,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         if ( p0->flag && p1->flag )  continue;
 
-        v0  = sol->m[ip0]-mesh->info.ls;
-        v1  = sol->m[ip1]-mesh->info.ls;
+        v0  = sol->m[ip0];
+        v1  = sol->m[ip1];
 
         if ( fabs(v0) > MMG5_EPSD2 && fabs(v1) > MMG5_EPSD2 && v0*v1 < 0.0 ) {
           nb ++;
@@ -260,8 +260,8 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
 
         p0 = &mesh->point[ip0];
         p1 = &mesh->point[ip1];
-        v0 = sol->m[ip0]-mesh->info.ls;
-        v1 = sol->m[ip1]-mesh->info.ls;
+        v0 = sol->m[ip0];
+        v1 = sol->m[ip1];
         if ( fabs(v0) < MMG5_EPSD2 || fabs(v1) < MMG5_EPSD2 )  continue;
         else if ( MG_SMSGN(v0,v1) )  continue;
         else if ( !p0->flag || !p1->flag )  continue;
@@ -313,7 +313,7 @@ int MMG3D_cuttet_lssurf(MMG5_pMesh mesh, MMG5_pSol sol,MMG5_pSol met){
           }
         }
 
-        sol->m[np] = mesh->info.ls;
+        sol->m[np] = 0.0;
 
         /* If user provide a metric, interpolate it at the new point */
         if ( met && met->m ) {
@@ -441,7 +441,7 @@ int MMG3D_setref_lssurf(MMG5_pMesh mesh, MMG5_pSol sol) {
       /* Set face ref */
       for (j=0; j<3; j++) {
         ip = pt->v[MMG5_idir[i][j]];
-        v  = sol->m[ip]-mesh->info.ls;
+        v  = sol->m[ip];
         if ( v > 0.0 )
           npls++;
         else if ( v < 0.0 )
-- 
2.43.0


From 0aee25c767e9f64ccb1c7cc603f7a99ce7cbba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 60/62] fix: area of surface components was measured by their
 projection

---
 src/common/mmg2.c | 50 +++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/src/common/mmg2.c b/src/common/mmg2.c
index 1252ef0..b0a6b44 100644
--- a/src/common/mmg2.c
+++ b/src/common/mmg2.c
@@ -751,13 +751,20 @@ int MMG5_ismaniball(MMG5_pMesh mesh, MMG5_pSol sol, MMG5_int start, int8_t istar
 static inline
 double MMG5_voltri(MMG5_pMesh mesh,MMG5_int ip0,MMG5_int ip1,MMG5_int ip2) {
   MMG5_pPoint    p0,p1,p2;
-  double         vol;
+  double         vol,nx,ny;
 
   p0 = &mesh->point[ip0];
   p1 = &mesh->point[ip1];
   p2 = &mesh->point[ip2];
 
   vol = (p1->c[0]-p0->c[0])*(p2->c[1]-p0->c[1]) - (p1->c[1]-p0->c[1])*(p2->c[0]-p0->c[0]);
+
+  if ( mesh->dim == 3 ) {
+    /* Surface mesh: norm of the cross product */
+    nx = (p1->c[1]-p0->c[1])*(p2->c[2]-p0->c[2]) - (p1->c[2]-p0->c[2])*(p2->c[1]-p0->c[1]);
+    ny = (p1->c[2]-p0->c[2])*(p2->c[0]-p0->c[0]) - (p1->c[0]-p0->c[0])*(p2->c[2]-p0->c[2]);
+    vol = sqrt(vol*vol + nx*nx + ny*ny);
+  }
   vol = 0.5*fabs(vol);
 
   return vol;
@@ -778,8 +785,7 @@ double MMG5_voltri(MMG5_pMesh mesh,MMG5_int ip0,MMG5_int ip1,MMG5_int ip2) {
 static inline
 double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
   MMG5_pTria    pt;
-  MMG5_pPoint   ppt[3];
-  double        v[3],vfp,vfm,lam,area,eps,o1[2],o2[2];
+  double        v[3],vfp,vfm,lam1,lam2,area,eps;
   MMG5_int      ip[3],nplus,nminus,nzero;
   int8_t        i,i0,i1,i2,imin1,iplus1,iz;
 
@@ -790,9 +796,7 @@ double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
   ip[1] = pt->v[1];
   ip[2] = pt->v[2];
 
-  ppt[0] = &mesh->point[ip[0]];
-  ppt[1] = &mesh->point[ip[1]];
-  ppt[2] = &mesh->point[ip[2]];
+  area = MMG5_voltri(mesh,ip[0],ip[1],ip[2]);
 
   v[0] = sol->m[ip[0]];
   v[1] = sol->m[ip[1]];
@@ -822,16 +826,14 @@ double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
 
   /* Whole triangle is positive */
   if ( nminus == 0 ) {
-    vfp = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-    vfp = 0.5*fabs(vfp);
+    vfp = area;
     if ( pm == 1 ) return vfp;
     else           return 0.0;
   }
 
   /* Whole triangle is negative */
   if ( nplus == 0 ) {
-    vfm = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-    vfm = 0.5*fabs(vfm);
+    vfm = area;
     if ( pm == -1 ) return vfm;
     else            return 0.0;
   }
@@ -842,21 +844,13 @@ double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
     i1 = MMG5_inxt2[i0];
     i2 = MMG5_iprv2[i0];
 
-    lam = v[i0] / (v[i0]-v[i1]);
-    o1[0] = ppt[i0]->c[0] + lam*(ppt[i1]->c[0]-ppt[i0]->c[0]);
-    o1[1] = ppt[i0]->c[1] + lam*(ppt[i1]->c[1]-ppt[i0]->c[1]);
+    lam1 = v[i0] / (v[i0]-v[i1]);
+    lam2 = v[i0] / (v[i0]-v[i2]);
 
-    lam = v[i0] / (v[i0]-v[i2]);
-    o2[0] = ppt[i0]->c[0] + lam*(ppt[i2]->c[0]-ppt[i0]->c[0]);
-    o2[1] = ppt[i0]->c[1] + lam*(ppt[i2]->c[1]-ppt[i0]->c[1]);
-
-    vfm = (o1[0]-ppt[i0]->c[0])*(o2[1]-ppt[i0]->c[1]) - (o1[1]-ppt[i0]->c[1])*(o2[0]-ppt[i0]->c[0]);
-    vfm = 0.5*fabs(vfm);
+    vfm = lam1*lam2*area;
 
     if ( pm == -1 ) return vfm;
     else {
-      area = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-      area = 0.5*fabs(area);
       vfp = area-vfm;
       return vfp;
     }
@@ -868,21 +862,13 @@ double MMG5_vfrac(MMG5_pMesh mesh,MMG5_pSol sol,MMG5_int k,int pm) {
     i1 = MMG5_inxt2[i0];
     i2 = MMG5_iprv2[i0];
 
-    lam = v[i0] / (v[i0]-v[i1]);
-    o1[0] = ppt[i0]->c[0] + lam*(ppt[i1]->c[0]-ppt[i0]->c[0]);
-    o1[1] = ppt[i0]->c[1] + lam*(ppt[i1]->c[1]-ppt[i0]->c[1]);
-
-    lam = v[i0] / (v[i0]-v[i2]);
-    o2[0] = ppt[i0]->c[0] + lam*(ppt[i2]->c[0]-ppt[i0]->c[0]);
-    o2[1] = ppt[i0]->c[1] + lam*(ppt[i2]->c[1]-ppt[i0]->c[1]);
+    lam1 = v[i0] / (v[i0]-v[i1]);
+    lam2 = v[i0] / (v[i0]-v[i2]);
 
-    vfp = (o1[0]-ppt[i0]->c[0])*(o2[1]-ppt[i0]->c[1]) - (o1[1]-ppt[i0]->c[1])*(o2[0]-ppt[i0]->c[0]);
-    vfp = 0.5*fabs(vfp);
+    vfp = lam1*lam2*area;
 
     if ( pm == 1 ) return vfp;
     else {
-      area = (ppt[1]->c[0]-ppt[0]->c[0])*(ppt[2]->c[1]-ppt[0]->c[1]) - (ppt[1]->c[1]-ppt[0]->c[1])*(ppt[2]->c[0]-ppt[0]->c[0]);
-      area = 0.5*fabs(area);
       vfm = area-vfp;
       return vfm;
     }
-- 
2.43.0


From c4011f2bbe645b65aa5925e9d686a98f242736f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:38 +0000
Subject: [PATCH 61/62] fix: mmg3d ignored the metric given with a surface
 level-set

---
 src/mmg3d/mmg3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmg3d/mmg3d.c b/src/mmg3d/mmg3d.c
index 863ea54..455e337 100644
--- a/src/mmg3d/mmg3d.c
+++ b/src/mmg3d/mmg3d.c
@@ -411,7 +411,7 @@ int main(int argc,char *argv[]) {
     }
 
     /* In iso mode: read metric if any */
-    if ( mesh->info.iso ) {
+    if ( mesh->info.iso || mesh->info.isosurf ) {
       if (met->namein) {
         if ( MMG3D_loadSol(mesh,met,met->namein) < 1 ) {
           fprintf(stdout,"  ## ERROR: UNABLE TO LOAD METRIC.\n");
-- 
2.43.0


From 2a84aa66c42ecf28b70402edcdad1a1e0fe6eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:30 +0000
Subject: [PATCH 62/62] fix: Fortran entry points taking a string freed it with
 a deallocator that does not match (crash)

---
 src/common/API_functionsf.c | 8 ++++----
 src/mmg2d/libmmg2d_toolsf.c | 2 +-
 src/mmg3d/libmmg3d_toolsf.c | 2 +-
 src/mmgs/libmmgs_toolsf.c   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/API_functionsf.c b/src/common/API_functionsf.c
index 6b94a51..5132a3c 100644
--- a/src/common/API_functionsf.c
+++ b/src/common/API_functionsf.c
@@ -58,7 +58,7 @@ FORTRAN_NAME(MMG5_SET_INPUTMESHNAME, mmg5_set_inputmeshname,
              (mesh,meshin,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,meshin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputMeshName(*mesh,tmp);
@@ -76,7 +76,7 @@ FORTRAN_NAME(MMG5_SET_INPUTSOLNAME, mmg5_set_inputsolname,
 
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,solin,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_inputSolName(*mesh,*sol,tmp);
@@ -94,7 +94,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTMESHNAME,mmg5_set_outputmeshname,
              (mesh,meshout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,meshout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputMeshName(*mesh, tmp);
@@ -111,7 +111,7 @@ FORTRAN_NAME(MMG5_SET_OUTPUTSOLNAME,mmg5_set_outputsolname,
              (mesh,sol,solout,strlen,retval)){
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,solout,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMG5_Set_outputSolName(*mesh,*sol,tmp);
diff --git a/src/mmg2d/libmmg2d_toolsf.c b/src/mmg2d/libmmg2d_toolsf.c
index 075a5e5..fb80833 100644
--- a/src/mmg2d/libmmg2d_toolsf.c
+++ b/src/mmg2d/libmmg2d_toolsf.c
@@ -210,7 +210,7 @@ FORTRAN_NAME(MMG2D_USAGE,mmg2d_usage,
              (prog,strlen)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   MMG2D_usage(tmp);
diff --git a/src/mmg3d/libmmg3d_toolsf.c b/src/mmg3d/libmmg3d_toolsf.c
index cbfefb1..5f47ac5 100644
--- a/src/mmg3d/libmmg3d_toolsf.c
+++ b/src/mmg3d/libmmg3d_toolsf.c
@@ -84,7 +84,7 @@ FORTRAN_NAME(MMG3D_USAGE,mmg3d_usage,
              (prog,strlen)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   MMG3D_usage(tmp);
diff --git a/src/mmgs/libmmgs_toolsf.c b/src/mmgs/libmmgs_toolsf.c
index 417685f..b8f206d 100644
--- a/src/mmgs/libmmgs_toolsf.c
+++ b/src/mmgs/libmmgs_toolsf.c
@@ -82,7 +82,7 @@ FORTRAN_NAME(MMGS_USAGE,mmgs_usage,
              (prog,strlen,retval)) {
   char *tmp = NULL;
 
-  tmp = (char*)malloc((*strlen+1)*sizeof(char));
+  MMG5_SAFE_MALLOC(tmp,*strlen+1,char,return);
   strncpy(tmp,prog,*strlen);
   tmp[*strlen] = '\0';
   *retval = MMGS_usage(tmp);
-- 
2.43.0

