From 918fae483eec12a577a20964407e58ec51ec0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 01/75] fix: release temporary lists in edge, region and vertex
 adjacency queries

---
 src/base/ME_Face_Funcs_R1R2.c     | 7 +++++--
 src/base/ME_Face_Funcs_R3R4.c     | 1 +
 src/base/ME_Region_Funcs_RN.c     | 3 +++
 src/base/MEdge_F4.c               | 1 +
 src/base/MR_Edge_Funcs_FN.c       | 8 ++++++++
 src/base/MR_Vertex_Funcs_FNR3R4.c | 1 +
 6 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/base/ME_Face_Funcs_R1R2.c b/src/base/ME_Face_Funcs_R1R2.c
index 2417788..4a999b5 100644
--- a/src/base/ME_Face_Funcs_R1R2.c
+++ b/src/base/ME_Face_Funcs_R1R2.c
@@ -55,8 +55,9 @@ extern "C" {
       if (vregs1)
 	List_Delete(vregs1);
       
-      if (!List_Num_Entries(cmnregs)) {
-	List_Delete(cmnregs);
+      if (!cmnregs || !List_Num_Entries(cmnregs)) {
+	if (cmnregs) List_Delete(cmnregs);
+	List_Delete(efaces);
 	return NULL;
       }
 
@@ -95,6 +96,7 @@ extern "C" {
 	  if (MF_UsesEntity(face,e->vertex[1],MVERTEX))
 	    List_Add(efaces,face);
 	}
+	List_Delete(vfaces1);
       }
       
     }
@@ -114,6 +116,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++) 
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/ME_Face_Funcs_R3R4.c b/src/base/ME_Face_Funcs_R3R4.c
index 7fd739c..0728a3d 100644
--- a/src/base/ME_Face_Funcs_R3R4.c
+++ b/src/base/ME_Face_Funcs_R3R4.c
@@ -95,6 +95,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++) 
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/ME_Region_Funcs_RN.c b/src/base/ME_Region_Funcs_RN.c
index 49279ed..685faee 100644
--- a/src/base/ME_Region_Funcs_RN.c
+++ b/src/base/ME_Region_Funcs_RN.c
@@ -29,6 +29,7 @@ extern "C" {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	ne++;
     }
+    if (vregs) List_Delete(vregs);
 
     return ne;
   }
@@ -46,6 +47,7 @@ extern "C" {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	List_Add(eregs,reg);
     }
+    if (vregs) List_Delete(vregs);
 
     if (List_Num_Entries(eregs))
       return eregs;    
@@ -62,6 +64,7 @@ extern "C" {
       *ner = List_Num_Entries(eregs);
       for (i = 0; i < *ner; i++)
         eregids[i] = MEnt_ID(List_Entry(eregs,i));
+      List_Delete(eregs);
     }
     else
       *ner = 0;
diff --git a/src/base/MEdge_F4.c b/src/base/MEdge_F4.c
index 85b02a6..0c7f780 100644
--- a/src/base/MEdge_F4.c
+++ b/src/base/MEdge_F4.c
@@ -156,6 +156,7 @@ extern "C" {
       *nef = List_Num_Entries(efaces);
       for (i = 0; i < *nef; i++)
         efaceids[i] = MEnt_ID(List_Entry(efaces,i));
+      List_Delete(efaces);
     }
     else
       *nef = 0;
diff --git a/src/base/MR_Edge_Funcs_FN.c b/src/base/MR_Edge_Funcs_FN.c
index 987a3b6..b7e5773 100644
--- a/src/base/MR_Edge_Funcs_FN.c
+++ b/src/base/MR_Edge_Funcs_FN.c
@@ -157,6 +157,7 @@ extern "C" {
 
 	if (!found) {
 	  MSTK_Report("MR_Edges_FN","Could not find edge connecting bottom and top faces of prism",MSTK_ERROR);
+	  List_Delete(fverts);
 	  return redges;
 	}
 
@@ -177,6 +178,7 @@ extern "C" {
 	  List_Add(redges,latedge);
 	else {
 	  MSTK_Report("MR_Edges_FN","Could not find edge connecting bottom and top faces of prism",MSTK_ERROR);
+	  List_Delete(fverts);
 	  return redges;
 	}
 
@@ -190,6 +192,7 @@ extern "C" {
 	  List_Add(redges,latedge);
 	else {
 	  MSTK_Report("MR_Edges_FN","Could not find edge connecting bottom and top faces of prism",MSTK_ERROR);
+	  List_Delete(fverts);
 	  return redges;
 	}
 
@@ -302,6 +305,7 @@ extern "C" {
 
 	if (!found) {
 	  MSTK_Report("MR_Edges_FN","Could not find edge connecting bottom and top faces of hex",MSTK_ERROR);
+	  List_Delete(fverts);
 	  return redges;
 	}
 
@@ -322,6 +326,7 @@ extern "C" {
 	  List_Add(redges,latedge);
 	else {
 	  MSTK_Report("MR_Edges_FN","Could not find edge connecting bottom and top faces of hex",MSTK_ERROR);
+	  List_Delete(fverts);
 	  return redges;
 	}
 
@@ -335,6 +340,7 @@ extern "C" {
 	  List_Add(redges,latedge);
 	else {
 	  MSTK_Report("MR_Edges_FN","Could not find edge connecting bottom and top faces of prism",MSTK_ERROR);
+	  List_Delete(fverts);
 	  return redges;
 	}
 
@@ -349,6 +355,7 @@ extern "C" {
 	  List_Add(redges,latedge);
 	else {
 	  MSTK_Report("MR_Edges_FN","Could not find edge connecting bottom and top faces of prism",MSTK_ERROR);
+	  List_Delete(fverts);
 	  return redges;
 	}
 
@@ -396,6 +403,7 @@ extern "C" {
     *nre = List_Num_Entries(redges);
     for (i = 0; i < *nre; i++)
       redgeids[i] = MEnt_ID(List_Entry(redges,i));
+    List_Delete(redges);
   }
 
 
diff --git a/src/base/MR_Vertex_Funcs_FNR3R4.c b/src/base/MR_Vertex_Funcs_FNR3R4.c
index 0cb77cb..7dcf584 100644
--- a/src/base/MR_Vertex_Funcs_FNR3R4.c
+++ b/src/base/MR_Vertex_Funcs_FNR3R4.c
@@ -266,6 +266,7 @@ extern "C" {
     *nrv = List_Num_Entries(rverts);
     for (i = 0; i < *nrv; i++)
       rvertids[i] = MEnt_ID(List_Entry(rverts,i));
+    List_Delete(rverts);
   }
 
   void MR_Replace_Vertex_FNR3R4(MRegion_ptr r, MVertex_ptr v, MVertex_ptr nuv){
-- 
2.43.0


From 434144186e4ee4b25bbf1feef8f0940f88f511a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 02/75] fix: element graph: release neighbour lists of boundary
 entities, grow the right array

---
 src/hilev/MESH_GetElementGraph.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hilev/MESH_GetElementGraph.c b/src/hilev/MESH_GetElementGraph.c
index 2506b50..fb38b63 100644
--- a/src/hilev/MESH_GetElementGraph.c
+++ b/src/hilev/MESH_GetElementGraph.c
@@ -41,7 +41,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MFace_ptr rf;
       while ((rf = List_Next_Entry(rfaces, &idx2))) {
 	List_ptr fregs = MF_Regions(rf);
-	if (List_Num_Entries(fregs) == 1) continue;
+	if (List_Num_Entries(fregs) == 1) {
+	  List_Delete(fregs);
+	  continue;
+	}
 
 	MRegion_ptr oppr;
 	if (List_Entry(fregs,0) == mr)
@@ -50,7 +53,7 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
 	  oppr = List_Entry(fregs,0);
 	if (pos == nalloc) {
 	  nalloc *= 2;
-	  *adjelems = (int *) realloc(adjelems, nalloc*sizeof(int));
+	  *adjelems = (int *) realloc(*adjelems, nalloc*sizeof(int));
 	}
 	(*adjelems)[pos] = MR_ID(oppr)-1;
 	pos++;
@@ -82,7 +85,10 @@ int MESH_GetElementGraph(Mesh_ptr mesh, int *nelems, int **adjbeg,
       MEdge_ptr fe;
       while ((fe = List_Next_Entry(fedges, &idx2))) {
 	List_ptr efaces = ME_Faces(fe);
-	if (List_Num_Entries(efaces) == 1) continue;
+	if (List_Num_Entries(efaces) == 1) {
+	  List_Delete(efaces);
+	  continue;
+	}
 
 	/* have to account for non-manifold configurations */
 	int idx3 = 0;
-- 
2.43.0


From 48c94769299d2216613bd903efb2808954744ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 03/75] fix: ExodusII readers: do not delete the vertex list
 while it is still being filled

---
 src/io/MESH_ReadExodusII_Partial.c | 2 +-
 src/io/MESH_ReadExodusII_Serial.c  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 8b9553a..2333ec5 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1117,7 +1117,6 @@ extern "C" {
 		}
 		for (k1 = 0; k1 < 3; k1++) fcen[k][k1] /= nfv;
 		List_Delete(fvlist);
-		List_Delete(rvlist);
               
 		fnormal[k][0] = fnormal[k][1] = fnormal[k][2] = 0.0;
 		for (k1 = 0; k1 < nfv; k1++) {
@@ -1186,6 +1185,7 @@ extern "C" {
 		}
 	      }
 	      List_Delete(rfaces);
+	      List_Delete(rvlist);
 	      free(fxyz);
 	    }  /* while (!mrgood && (mr = MESH_Next_Entry(mesh, &idx))) */
 
diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 8faa650..6ed24fa 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -1393,6 +1393,7 @@ extern "C" {
                 }
               }
               List_Delete(rfaces);
+              List_Delete(rverts);
               free(fxyz);
             }  /* while (!mrgood && (mr = MESH_Next_Entry(mesh, &idx))) */
 
-- 
2.43.0


From 963fb9e3fc3304ea79cb0e347c4883a99fb78b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 04/75] fix: exporters: release temporary adjacency lists

---
 src/io/MESH_ExportToDXBin.c   | 1 +
 src/io/MESH_ExportToFLAGX3D.c | 2 ++
 src/io/MESH_ExportToGMV.c     | 3 +++
 src/io/MESH_ExportToSTL.c     | 1 +
 4 files changed, 7 insertions(+)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 173992f..3f95fcc 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -382,6 +382,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
 	  break;
 	}
+	List_Delete(rfaces);
 	break;
       case 6: /******* HEXAHEDRON *********/
 	if (!idbhex) {
diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index 0043f02..da802ed 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -1020,6 +1020,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
           MEnt_Get_AttVal(edge,eidatt_tmp,&eid,&rval,&pval);
           fprintf(fp,"% 10d",eid);
         }
+        if (efaces) List_Delete(efaces);
 
         k++;
         if (k%14 == 0 && je != nfe-1)
@@ -1070,6 +1071,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
     }
   }
   fprintf(fp,"end_ghost_nodes\n");
+  List_Delete(prtn_bndry_verts);
 
 
   /***********************************************************************/
diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 4e6f443..259a775 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -541,7 +541,9 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
             MEnt_Get_AttVal(face,fidatt,&fid,&rval,&pval);
             fprintf(fp,"% d ",fid);
           }
+          if (fregs) List_Delete(fregs);
         }
+        List_Delete(rfaces);
         fprintf(fp,"\n");
 
         gentid = MR_GEntID(region);
@@ -687,6 +689,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
           }
           List_Delete(fregs);
         }
+        List_Delete(rfaces);
 
       }
 
diff --git a/src/io/MESH_ExportToSTL.c b/src/io/MESH_ExportToSTL.c
index ad4ed5b..0fadeb6 100644
--- a/src/io/MESH_ExportToSTL.c
+++ b/src/io/MESH_ExportToSTL.c
@@ -63,6 +63,7 @@ int MESH_ExportToSTL(Mesh_ptr mesh, const char *filename) {
 
     for (i = 0; i < nfv; i++)
       MV_Coords(List_Entry(fverts,i),fxyz[i]);
+    List_Delete(fverts);
       
     {
       vec1[0] = fxyz[1][0]-fxyz[0][0];
-- 
2.43.0


From ecb3442636c51e4ecf3c676f4e8d9affdab98da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 05/75] fix: release temporary lists on error exits of split,
 merge, join and in print

---
 src/misc/MSTK_Print.c        | 1 +
 src/mod/MF_Split_with_Edge.c | 2 ++
 src/mod/MFs_Merge_FN.c       | 8 ++++++++
 src/mod/MRs_Join.c           | 1 +
 4 files changed, 12 insertions(+)

diff --git a/src/misc/MSTK_Print.c b/src/misc/MSTK_Print.c
index bb6f8c7..23af313 100644
--- a/src/misc/MSTK_Print.c
+++ b/src/misc/MSTK_Print.c
@@ -417,6 +417,7 @@ extern "C" {
 	  }
 	}
 	fprintf(stderr,"\n");
+	List_Delete(rvertices);
 
       }
     }
diff --git a/src/mod/MF_Split_with_Edge.c b/src/mod/MF_Split_with_Edge.c
index f5497f8..f575b9a 100644
--- a/src/mod/MF_Split_with_Edge.c
+++ b/src/mod/MF_Split_with_Edge.c
@@ -140,6 +140,8 @@ MEdge_ptr MF_Split_with_Edge(MFace_ptr fsplit, MVertex_ptr v0, MVertex_ptr v1) {
   MF_Set_GEntID(fnew[1],gid);
 
 
+  List_Delete(felist);
+  free(fedirs);
   free(fedges0);
   free(fedirs0);
   free(fedges1);
diff --git a/src/mod/MFs_Merge_FN.c b/src/mod/MFs_Merge_FN.c
index 1b58929..13baa67 100644
--- a/src/mod/MFs_Merge_FN.c
+++ b/src/mod/MFs_Merge_FN.c
@@ -64,6 +64,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
     MSTK_Report("MFs_Merge",
 		"To-be-merged faces have different number of edges",
 		MSTK_ERROR);
+    List_Delete(fedges1);
+    List_Delete(fedges2);
     return 0;
   }
   
@@ -80,6 +82,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 	MSTK_Report("MFs_Merge",
 		    "Edges of faces must be merged before merging faces",
 		    MSTK_ERROR);
+	List_Delete(fedges1);
+	List_Delete(fedges2);
 	return 0;
       }
     }
@@ -98,6 +102,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
 	MSTK_Report("MFs_Merge",
 		    "Edges of faces must be merged before merging faces",
 		    MSTK_ERROR);
+	List_Delete(fedges1);
+	List_Delete(fedges2);
 	return 0;
       }
     }
@@ -109,6 +115,8 @@ MFace_ptr MFs_Merge_FN(MFace_ptr f1, MFace_ptr f2, int topoflag) {
     MSTK_Report("MFs_Merge",
 		"Edges of faces must be merged before merging faces",
 		MSTK_ERROR);
+    List_Delete(fedges1);
+    List_Delete(fedges2);
     return 0;
   }
 
diff --git a/src/mod/MRs_Join.c b/src/mod/MRs_Join.c
index de4bf8b..34b79d3 100644
--- a/src/mod/MRs_Join.c
+++ b/src/mod/MRs_Join.c
@@ -42,6 +42,7 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
   if (fcmn) {
     if (!MR_UsesEntity(r1,fcmn,MFACE)) {
       MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+      List_Delete(rfaces2);
       return 0;
     }
   }
-- 
2.43.0


From 8d57021074ba3aa3dae0bdf53ab000829baef776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 06/75] fix: surface mesh Zoltan graph: list the opposite
 faces, release boundary edge lists

---
 src/par/MESH_PartitionWithZoltan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/par/MESH_PartitionWithZoltan.c b/src/par/MESH_PartitionWithZoltan.c
index 8d2f8e0..09831c8 100644
--- a/src/par/MESH_PartitionWithZoltan.c
+++ b/src/par/MESH_PartitionWithZoltan.c
@@ -281,12 +281,13 @@ int NDIM_4_ZOLTAN = 3;
             nef = List_Num_Entries(efaces);
 	  
             if (nef == 1) {
+              List_Delete(efaces);
               continue;          /* boundary edge; nothing to do */
             } else {
               int j;
               for (j = 0; j < nef; j++) {
                 oppf = List_Entry(efaces,j);
-                if (oppf == mf) {
+                if (oppf != mf) {
                   graph.nborGID[ipos] = MF_ID(oppf);
                   /* initially set all nodes on processor 0 */
                   graph.nborProc[ipos] = 0;
-- 
2.43.0


From 473a5b04febc45b67faed94cbfde95f0e4ed3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 07/75] fix: parallel: release temporary adjacency lists

---
 src/par/MESH_AssignGlobalIDs_point.c | 1 +
 src/par/MESH_Parallel_Check.c        | 1 +
 src/par/MESH_PartitionWithMetis.c    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index c84f1d7..692bbfa 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -681,6 +681,7 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
       if (!MV_OnParBoundary(mv))
         is_boundary = 0;
     }
+    List_Delete(mfverts);
     if(is_boundary) {
       MF_Flag_OnParBoundary(mf);
       List_Add(boundary_faces,mf);
diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index 9107ad6..eb7d9c1 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -586,6 +586,7 @@ int MESH_Parallel_Check_FaceGlobalID(Mesh_ptr mesh, int rank, int num, MSTK_Comm
                   "OWNED face %d (GID %d) on proc %d not connected to any OWNED regions. Potential problem\n", MF_ID(mf), MF_GlobalID(mf), rank);
           MSTK_Report("MESH_Parallel_Check_FaceGlobalID", mesg, MSTK_WARN);
         }
+        List_Delete(fregs);
       }
     }
   }
diff --git a/src/par/MESH_PartitionWithMetis.c b/src/par/MESH_PartitionWithMetis.c
index 0c87112..a079e54 100644
--- a/src/par/MESH_PartitionWithMetis.c
+++ b/src/par/MESH_PartitionWithMetis.c
@@ -74,6 +74,7 @@ int MESH_PartitionWithMetis(Mesh_ptr mesh, int nparts, int **part) {
 	nef = List_Num_Entries(efaces);
 	
 	if (nef == 1) {
+	  List_Delete(efaces);
 	  continue;          /* boundary edge; nothing to do */
 	}
 	else {
-- 
2.43.0


From bb24a69bc2e0470e825b0531925ab1336ba9e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 08/75] fix: MAttIns_Set_Value leaked the previous
 vector/tensor value when overwriting it

---
 src/base/MAttrib.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index a97c74b..91075ae 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -155,8 +155,12 @@ extern "C" {
          * before storing */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *vval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(vval_copy, pval, ncomp*sizeof(double));
+        double *vval_copy = NULL;
+        if (pval) {
+          vval_copy = (double *) malloc(ncomp*sizeof(double));
+          memcpy(vval_copy, pval, ncomp*sizeof(double));
+        }
+        if (attins->att_val.pval) free(attins->att_val.pval);
         attins->att_val.pval = vval_copy;
         break;
       }
@@ -166,8 +170,12 @@ extern "C" {
          * storing */
         
         int ncomp = MAttrib_Get_NumComps(attrib);
-        double *tval_copy = (double *) malloc(ncomp*sizeof(double));
-        memcpy(tval_copy, pval, ncomp*sizeof(double));
+        double *tval_copy = NULL;
+        if (pval) {
+          tval_copy = (double *) malloc(ncomp*sizeof(double));
+          memcpy(tval_copy, pval, ncomp*sizeof(double));
+        }
+        if (attins->att_val.pval) free(attins->att_val.pval);
         attins->att_val.pval = tval_copy;
         break;
       }
-- 
2.43.0


From 68abf9606169829d477c1800564b753948291bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 09/75] fix: attribute exchange: absent vector values,
 unassigned ghosts, wrong buffers and leaks

---
 src/par/MESH_CopyAttr.c               | 29 ++-------
 src/par/MESH_GathScat1Attribute.c     | 88 ++++++++++++---------------
 src/par/MESH_Recv_Attribute.c         |  8 +--
 src/par/MESH_Recv_AttributeMetaData.c |  5 +-
 src/par/MESH_Send_Attribute.c         |  9 ++-
 src/par/MESH_Update1Attribute.c       | 32 +++-------
 src/par/MESH_XchngEdgeFaceAttrib.c    | 30 +++------
 7 files changed, 68 insertions(+), 133 deletions(-)

diff --git a/src/par/MESH_CopyAttr.c b/src/par/MESH_CopyAttr.c
index 4504c22..6115476 100644
--- a/src/par/MESH_CopyAttr.c
+++ b/src/par/MESH_CopyAttr.c
@@ -58,6 +58,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
     /* if there is no such attribute */
     if(!local_attrib[i]) {
       MSTK_Report("MESH_CopyAttr","Submesh has no attribute of given name",MSTK_WARN);
+      free(local_attrib);
       return 0;
     }
   }
@@ -99,12 +100,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmv = List_Next_Entry(lmvlist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = pval;  /* vectors are copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lmv);
         for (i = 0; i < num; i++)
@@ -139,12 +135,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lme = List_Next_Entry(lmelist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = pval;  /* vectors are copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lme);
         for (i = 0; i < num; i++)
@@ -179,12 +170,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmf = List_Next_Entry(lmflist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = pval;  /* vectors are copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lmf);
         for (i = 0; i < num; i++)
@@ -220,12 +206,7 @@ int MESH_CopyAttr(Mesh_ptr mesh, int num, Mesh_ptr *submeshes, const char *attr_
 
       int idx2 = 0;
       while ((lmr = List_Next_Entry(lmrlist,&idx2))) {
-        if (ncomp > 1) {
-          pval_arr = (void *)malloc(ncomp*sizeof(double));
-          memcpy(pval_arr,pval,ncomp*sizeof(double));
-        }
-        else
-          pval_arr = NULL;
+        pval_arr = pval;  /* vectors are copied when set */
 
         Mesh_ptr entmesh = MEnt_Mesh(lmr);
         for (i = 0; i < num; i++)
diff --git a/src/par/MESH_GathScat1Attribute.c b/src/par/MESH_GathScat1Attribute.c
index 9d94437..7e65f5b 100644
--- a/src/par/MESH_GathScat1Attribute.c
+++ b/src/par/MESH_GathScat1Attribute.c
@@ -273,12 +273,12 @@ extern "C" {
 	      list_value_int_send[n] = ival;
 	    }
 	    else {
-	      if (ncomp == 1)
+	      if (att_type == DOUBLE)
 		list_value_double_send[n] = rval;
-	      if (ncomp > 1) {
+	      if (att_type != DOUBLE) {
 		rval_arr = (double *)pval;
 		for(k = 0; k < ncomp; k++)
-		  list_value_double_send[ncomp*n+k] = rval_arr[k];
+		  list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
 	      }
 	    }
             n++;
@@ -422,8 +422,9 @@ extern "C" {
       double final_rval;
       double *final_rval_arr = (double *) malloc(ncomp*sizeof(double));
 
-      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,
-                      (void *) final_rval_arr);
+      MEnt_Get_AttVal(ment,attrib,&final_ival,&final_rval,&pval);
+      for (k = 0; k < ncomp; k++)
+        final_rval_arr[k] = (att_type != DOUBLE && pval) ? ((double *)pval)[k] : 0.0;
 
       for (i = 0; i < num_recv_procs; i++) {
         int offset = recv_pos[i];   /* recv_pos array is num_recv_procs long */
@@ -463,7 +464,7 @@ extern "C" {
           }
         }
         else {
-          if(ncomp == 1) {
+          if (att_type == DOUBLE) {
             rval = list_value_double_recv[ind];
             switch (optype) {
               case ATTOP_MAX:
@@ -480,46 +481,35 @@ extern "C" {
                 break;
             }
           }
-          if(ncomp > 1) {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
+          if (att_type != DOUBLE) {
+            rval_arr = &list_value_double_recv[ind*ncomp];
+            double final_norm = 0.0, norm = 0.0;
+            switch (optype) {
+              case ATTOP_MAX:
+                for (k = 0; k < ncomp; k++) 
+                  final_norm += final_rval_arr[k]*final_rval_arr[k];
+                for (k = 0; k < ncomp; k++)
+                  norm += rval_arr[k]*rval_arr[k];
+                if (norm > final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
+                break;
+              case ATTOP_MIN:
+                for (k = 0; k < ncomp; k++) 
+                  final_norm += final_rval_arr[k]*final_rval_arr[k];
+                for (k = 0; k < ncomp; k++)
+                  norm += rval_arr[k]*rval_arr[k];
+                if (norm < final_norm)
+                  memcpy(final_rval_arr,rval_arr,ncomp*sizeof(double));
                 break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-              double final_norm = 0.0, norm = 0.0;
-              switch (optype) {
-                case ATTOP_MAX:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm > final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                  break;
-                case ATTOP_MIN:
-                  for (k = 0; k < ncomp; k++) 
-                    final_norm += final_rval_arr[k]*final_rval_arr[k];
-                  for (k = 0; k < ncomp; k++)
-                    norm += rval_arr[k]*rval_arr[k];
-                  if (norm < final_norm)
-                    memcpy(rval_arr,final_rval_arr,ncomp*sizeof(double));
-                case ATTOP_SUM: case ATTOP_AVG:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] += rval_arr[k];
-                  break;
-                default:
-                  for (k = 0; k < ncomp; k++)
-                    final_rval_arr[k] = rval_arr[k];
-                  break;
-              }
-            }	
-            else
-              rval_arr = NULL;
+              case ATTOP_SUM: case ATTOP_AVG:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] += rval_arr[k];
+                break;
+              default:
+                for (k = 0; k < ncomp; k++)
+                  final_rval_arr[k] = rval_arr[k];
+                break;
+            }
           }
         }
 
@@ -535,15 +525,13 @@ extern "C" {
 
       if (optype == ATTOP_AVG) {
         if (att_type == DOUBLE) final_rval /= nfound+1;
-        if ((att_type == VECTOR || att_type == TENSOR) && rval_arr)
+        if (att_type == VECTOR || att_type == TENSOR)
           for (k = 0; k < ncomp; k++)
             final_rval_arr[k] /= nfound+1;
       }
       
-      if ((att_type == INT && final_ival) ||
-          (att_type == DOUBLE && final_rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && final_rval_arr))
-        MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
+      MEnt_Set_AttVal(ment,attrib,final_ival,final_rval,(void*) final_rval_arr);
+      free(final_rval_arr);
 
     }
     
diff --git a/src/par/MESH_Recv_Attribute.c b/src/par/MESH_Recv_Attribute.c
index bd432ea..672a31d 100644
--- a/src/par/MESH_Recv_Attribute.c
+++ b/src/par/MESH_Recv_Attribute.c
@@ -134,11 +134,9 @@ extern "C" {
       if (rval != 0.0) nullval = 0;
     }
     else {
-      if (ncomp > 1) {
+      if (att_type != DOUBLE) {
         nullval = 0;  /* always add vectors */
-        rval_arr = (double *) malloc(ncomp*sizeof(double));
-        for(k = 0; k < ncomp; k++)
-          rval_arr[k] = list_value_double[j*ncomp+k];
+        rval_arr = &list_value_double[j*ncomp]; /* copied when set */
       }
     }
     if (nullval) continue; /* Don't waste time initializing to zero */
@@ -149,7 +147,7 @@ extern "C" {
    free(list_info);
    if (att_type == INT) 
      free(list_value_int);
-   else if (att_type == DOUBLE)
+   else
      free(list_value_double);
 
   return 1;
diff --git a/src/par/MESH_Recv_AttributeMetaData.c b/src/par/MESH_Recv_AttributeMetaData.c
index 36054a3..8e631f6 100644
--- a/src/par/MESH_Recv_AttributeMetaData.c
+++ b/src/par/MESH_Recv_AttributeMetaData.c
@@ -81,10 +81,7 @@ extern "C" {
       att_type = list_attr_info[i] & 7;
       mtype = (list_attr_info[i] >> 3) & 7;
       ncomp = list_attr_info[i] >> 6;
-      if(ncomp == 1)
-        attrib =  MAttrib_New(mesh, attname, att_type, mtype);
-      else
-        attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
+      attrib =  MAttrib_New(mesh, attname, att_type, mtype, ncomp);
     }
     
     if (natt) {
diff --git a/src/par/MESH_Send_Attribute.c b/src/par/MESH_Send_Attribute.c
index e45d1ae..2c531ea 100644
--- a/src/par/MESH_Send_Attribute.c
+++ b/src/par/MESH_Send_Attribute.c
@@ -116,6 +116,9 @@ extern "C" {
         break;
       default:
         MSTK_Report("MESH_SendAttr()","Invalid entity type",MSTK_WARN);
+        free(list_info);
+        free(list_value_int);
+        free(list_value_double);
         return 0;
       }
     
@@ -125,12 +128,12 @@ extern "C" {
       if (att_type == INT)
         list_value_int[j] = ival;
       else {
-        if(ncomp == 1)
+        if (att_type == DOUBLE)
           list_value_double[j] = rval;
-        if(ncomp > 1) {
+        if (att_type != DOUBLE) {
           rval_arr = (double *)pval;
           for(k = 0; k < ncomp; k++)
-            list_value_double[ncomp*j+k] = rval_arr[k];
+            list_value_double[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
         }
       }
     }
diff --git a/src/par/MESH_Update1Attribute.c b/src/par/MESH_Update1Attribute.c
index f1241da..5939964 100644
--- a/src/par/MESH_Update1Attribute.c
+++ b/src/par/MESH_Update1Attribute.c
@@ -131,12 +131,12 @@ extern "C" {
 	list_value_int_send[j] = ival;
       }
       else {
-	if (ncomp == 1)
+	if (att_type == DOUBLE)
 	  list_value_double_send[j] = rval;
-	if (ncomp > 1) {
+	if (att_type != DOUBLE) {
 	  rval_arr = (double *)pval;
 	  for(k = 0; k < ncomp; k++)
-	    list_value_double_send[ncomp*j+k] = rval_arr[k];
+	    list_value_double_send[ncomp*j+k] = rval_arr ? rval_arr[k] : 0.0;
 	}
       }
     }
@@ -305,6 +305,7 @@ extern "C" {
         char msg[256];
         sprintf(msg, "Cannot find entity of type %d with global ID %d in list on proc %d", mtype, global_id, myrank);
         MSTK_Report("MESH_UpdateAttr",msg,MSTK_ERROR);
+        continue;
       }
 
       /* get the index */
@@ -312,29 +313,12 @@ extern "C" {
       if (att_type == INT)
 	ival = list_value_int_recv[i];
       else {
-	if(ncomp == 1) 
+	if (att_type == DOUBLE) 
 	  rval = list_value_double_recv[i];
-	if(ncomp > 1)
-	  {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[i*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *) malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[i*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
-          }
+	if (att_type != DOUBLE)
+          rval_arr = &list_value_double_recv[i*ncomp]; /* copied when set */
       }
-      if ((att_type == INT && ival) ||
-          (att_type == DOUBLE && rval) ||
-          ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-        MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+      MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
     }
 
     /* release the send buffer */
diff --git a/src/par/MESH_XchngEdgeFaceAttrib.c b/src/par/MESH_XchngEdgeFaceAttrib.c
index 6a2db91..8c73d08 100644
--- a/src/par/MESH_XchngEdgeFaceAttrib.c
+++ b/src/par/MESH_XchngEdgeFaceAttrib.c
@@ -266,12 +266,12 @@ extern "C" {
                 list_value_int_send[n] = ival;
               }
               else {
-                if (ncomp == 1)
+                if (att_type == DOUBLE)
                   list_value_double_send[n] = rval;
-                if (ncomp > 1) {
+                if (att_type != DOUBLE) {
                   rval_arr = (double *)pval;
                   for(k = 0; k < ncomp; k++)
-                    list_value_double_send[ncomp*n+k] = rval_arr[k];
+                    list_value_double_send[ncomp*n+k] = rval_arr ? rval_arr[k] : 0.0;
                 }
               }
               n++;
@@ -430,29 +430,13 @@ extern "C" {
         if (att_type == INT) 
           ival = list_value_int_recv[ind];
         else {
-          if(ncomp == 1) 
+          if (att_type == DOUBLE) 
             rval = list_value_double_recv[ind];
-          else {
-            int allzero = 1;
-            for (k = 0; k < ncomp; k++)
-              if (list_value_double_recv[ind*ncomp+k] != 0.0) {
-                allzero = 0;
-                break;
-              }
-            if (!allzero) {
-              rval_arr = (double *)malloc(ncomp*sizeof(double));
-              for(k = 0; k < ncomp; k++)
-                rval_arr[k] = list_value_double_recv[ind*ncomp+k];
-            }	
-            else
-              rval_arr = NULL;
-          }
+          else
+            rval_arr = &list_value_double_recv[ind*ncomp]; /* copied when set */
         }
         
-        if ((att_type == INT && ival) ||
-            (att_type == DOUBLE && rval) ||
-            ((att_type == VECTOR || att_type == TENSOR) && rval_arr))
-          MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
+        MEnt_Set_AttVal(ment,attrib,ival,rval,(void*) rval_arr);
        
         break;
       } /* for (i = 0; i < num_recv_procs; i++) */
-- 
2.43.0


From 0c8ae9dbb40e8ad0855729f567cf1486b584a65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 10/75] fix: MESH_Send_NonVertexEntities sent zero-length
 messages that are never received

---
 src/par/MESH_Send_NonVertexEntities.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/par/MESH_Send_NonVertexEntities.c b/src/par/MESH_Send_NonVertexEntities.c
index 9af74d3..47b7730 100644
--- a/src/par/MESH_Send_NonVertexEntities.c
+++ b/src/par/MESH_Send_NonVertexEntities.c
@@ -141,6 +141,8 @@ extern "C" {
     nfes = (1 + maxnfe + 3)*nf;
     nrfs = (1 + maxnrf + 3)*nr;
     
+    if (ne) {
+
     /* Reserve nevs spots for each edge */
 
     list_edge = (int *) malloc(5*ne*sizeof(int));
@@ -164,8 +166,12 @@ extern "C" {
     MPI_Isend(list_edge,nevs,MPI_INT,torank,torank,comm,&mpirequest);
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
+
+    } /* if (ne) */
   
 
+    if (nf) {
+
     /* Reserve nfes spots for each face */
 
     list_face = (int *) malloc(nfes*sizeof(int));
@@ -197,6 +203,7 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
+    } /* if (nf) */
     
     if (nr) {
 
-- 
2.43.0


From 9f51bdf72609045ba1cef84d54634c249f4431c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 11/75] fix: temporary buffers leaked in parallel routines

---
 src/par/MESH_AssignGlobalIDs_point.c | 3 ---
 src/par/MESH_Partition_and_Send.c    | 6 ++++--
 src/par/MESH_Renumber_GlobalIDs.c    | 1 +
 src/par/MESH_UpdateVertexCoords.c    | 8 ++++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/par/MESH_AssignGlobalIDs_point.c b/src/par/MESH_AssignGlobalIDs_point.c
index 692bbfa..310da7f 100644
--- a/src/par/MESH_AssignGlobalIDs_point.c
+++ b/src/par/MESH_AssignGlobalIDs_point.c
@@ -329,7 +329,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
 
   mesh_info[9] = ngv;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost vertex */
@@ -532,7 +531,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
   
   mesh_info[9] = nge;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost edge */
@@ -779,7 +777,6 @@ static int vertex_on_boundary3D(MVertex_ptr mv) {
   }
   
   mesh_info[9] = ngf;
-  global_mesh_info = (int *)malloc(10*num*sizeof(int));
   MPI_Allgather(mesh_info,10,MPI_INT,global_mesh_info,10,MPI_INT,comm);
   
   /* Assign global ID for non ghost vertex */
diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index 5c3151c..f8a211d 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -268,8 +268,8 @@ extern "C" {
           }	
         }
       }
-          
-     
+
+      free(attnames);
         
       /* First collect the mesh set information and copy into submeshes */
 
@@ -337,6 +337,8 @@ extern "C" {
         }
           
       }
+
+      free(msetnames);
     }
 
 
diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index ea8c365..8605179 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -216,6 +216,7 @@ extern "C" {
       default: {}
     }
 
+    free(new_index);
     free(nowned_all);
     free(offset_all);
 
diff --git a/src/par/MESH_UpdateVertexCoords.c b/src/par/MESH_UpdateVertexCoords.c
index 4d0c6d7..4d918b0 100644
--- a/src/par/MESH_UpdateVertexCoords.c
+++ b/src/par/MESH_UpdateVertexCoords.c
@@ -195,6 +195,13 @@ extern "C" {
                            nent,
 			   sizeof(int),
 			   compareINT);
+      if (loc == NULL) {
+        MSTK_Report("MESH_UpdateVertexCoords",
+                    "Cannot find ghost vertex in list from master partition",
+                    MSTK_ERROR);
+        continue;
+      }
+
       /* get the index */
       i = (int)(loc - &gid_list_recv[0]);
       for(k = 0; k < 3; k++)
@@ -207,6 +214,7 @@ extern "C" {
     free(coords_send);
     free(gid_list_recv);
     free(coords_recv);
+    free(recv_procs);
     free(recv_pos);    
     free(rank_g2l);    
     return 1;
-- 
2.43.0


From 2d35f0f928ec3d8f179790e3333089a942379eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 12/75] fix: temporary buffers, names and input file leaked in
 serial routines

---
 src/base/MESH_InitFromFile.c     | 10 +++++++++-
 src/base/MSet.c                  |  2 ++
 src/hilev/MESH_InitFromGenDesc.c |  5 +++++
 src/mod/MFs_Join.c               |  3 +++
 src/mod/MRs_Join.c               |  1 +
 src/util/Graph_renumber.c        |  1 +
 6 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 9fad8e3..1dd6020 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -152,8 +152,10 @@ extern "C" {
     if (mesh->ne || mesh->nf || mesh->nr)
       MSTK_Report("MESH_InitFromFile",
 		  "Premature end of file after vertex data",MSTK_FATAL);
-    else
+    else {
+      fclose(fp);
       return 0;
+    }
   }
 
 
@@ -302,6 +304,7 @@ extern "C" {
   else {
     if (file_reptype >= F1 && file_reptype <= F4) {
       MSTK_Report("MESH_InitFromFile","Expected edge information",MSTK_ERROR);
+      fclose(fp);
       return 0;
     }
   }
@@ -469,6 +472,8 @@ extern "C" {
 
 	    MSTK_Report("MESH_InitFromFile","Need to convert edge list to vertex list",MSTK_ERROR);
 	    fclose(fp);
+	    free(fedges);
+	    free(fedirs);
 	    return 0;
 
 	  }
@@ -496,6 +501,7 @@ extern "C" {
       else {
 	MSTK_Report("MESH_InitFromFile",
 		    "Expect face description in terms of edges",MSTK_ERROR);
+	fclose(fp);
 	return 0;
       }
     }
@@ -669,6 +675,8 @@ extern "C" {
 
 	    MSTK_Report("MESH_InitFromFile","Need to convert face list to vertex list", MSTK_ERROR);
 	    fclose(fp);
+	    free(rfaces);
+	    free(rfdirs);
 	    return 0;
 
 	  }
diff --git a/src/base/MSet.c b/src/base/MSet.c
index d703614..a699982 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -191,6 +191,7 @@ extern "C" {
     }
     else
       newset = MSet_New(MSet_Mesh(s1),newname,MSet_EntDim(s1));
+    free(newname);
 
     
     newset->entlist = List_Copy(s1->entlist);
@@ -262,6 +263,7 @@ extern "C" {
     }
     else
       newset = MSet_New(MSet_Mesh(s1),newname,MSet_EntDim(s1));
+    free(newname);
 
 #ifdef MSTK_USE_MARKERS
     int mkid1 = MSTK_GetMarker();
diff --git a/src/hilev/MESH_InitFromGenDesc.c b/src/hilev/MESH_InitFromGenDesc.c
index e0d54b0..dab44e3 100644
--- a/src/hilev/MESH_InitFromGenDesc.c
+++ b/src/hilev/MESH_InitFromGenDesc.c
@@ -44,6 +44,7 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
     
     MSTK_Report("MESH_InitFromGenDesc",
 		"Cannot specify 'faces' and 'regions' for now",MSTK_WARN);
+    free(verts);
     return 0;
   }
 
@@ -52,6 +53,7 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
     MSTK_Report("MESH_InitFromGenDesc",
 		"Mesh has only vertices? No faces or regions?",MSTK_WARN);
 
+    free(verts);
     return 0;
   }
 
@@ -112,6 +114,8 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
 	MSTK_Report("MESH_InitFromGenDesc",
 		    "No standard mesh shape for regions with more than 8 vertices",MSTK_WARN);
 	
+	free(rverts);
+	free(verts);
 	return 0;
 	
       }
@@ -142,6 +146,7 @@ int MESH_InitFromGenDesc(Mesh_ptr mesh, int nv, double (*xyz)[3], int nf,
   }
 
 
+  if (rverts) free(rverts);
   if (verts) free(verts);
 
   return 1;
diff --git a/src/mod/MFs_Join.c b/src/mod/MFs_Join.c
index 4de0580..dee10d7 100644
--- a/src/mod/MFs_Join.c
+++ b/src/mod/MFs_Join.c
@@ -85,6 +85,9 @@ MFace_ptr MFs_Join(MFace_ptr f0, MFace_ptr f1, MEdge_ptr e) {
 
   if (k0 == -1 || k1 == -1) {
     MSTK_Report("MFs_Join","Cannot find edge in face",MSTK_ERROR);
+    free(fe0); free(fedir0);
+    free(fe1); free(fedir1);
+    free(fe3); free(fedir3);
     return 0;
   }
 
diff --git a/src/mod/MRs_Join.c b/src/mod/MRs_Join.c
index 34b79d3..e0bd23d 100644
--- a/src/mod/MRs_Join.c
+++ b/src/mod/MRs_Join.c
@@ -81,6 +81,7 @@ MRegion_ptr MRs_Join(MRegion_ptr r1, MRegion_ptr r2, MFace_ptr f) {
 
   if (!found) {
     MSTK_Report("MRs_Join","Cannot find common face in region",MSTK_ERROR);
+    free(rf2); free(rfdir2);
     return 0;
   }
 
diff --git a/src/util/Graph_renumber.c b/src/util/Graph_renumber.c
index 0abb100..fe3e757 100644
--- a/src/util/Graph_renumber.c
+++ b/src/util/Graph_renumber.c
@@ -518,6 +518,7 @@ void Graph_Assign_Levels_MinWidth(int nnodes, int adj[], int nadj[], int offset[
   free(maxcset);
   free(levelpairs);
   free(zeros);
+  free(unmarked_nodes);
 }
 
 
-- 
2.43.0


From 44559bfcd3508572090c019a03fa16104db7c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 13/75] fix: GMV reader used released cell data when a file has
 a second cells section

---
 src/io/MESH_ImportFromGMV.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 8419e30..c8605de 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -530,6 +530,7 @@ extern "C" {
 	for (i = 0; i < MAXPF3; i++)
 	  free(rfv_template[i]);
 	free(rfv_template);
+	rfv_template = NULL;
       }
 
       /* END READING CELLS (EXCEPT VFACES FOR VFACE2D and VFACE3D) */
@@ -656,6 +657,7 @@ extern "C" {
 	}
 
 	free(vface2d_data);
+	vface2d_data = NULL;
       }
       else if (vface3d) {
 	for (ic = 0; ic < ncells; ic++) {
@@ -674,6 +676,7 @@ extern "C" {
 	}
 
 	free(vface3d_data);
+	vface3d_data = NULL;
       }
     }
     else if (strcmp(temp_str,"faces") == 0) {
-- 
2.43.0


From fa5a2a2217a5a79294ddc2ad8916b7bb0319e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 14/75] fix: dispatch tables: ME_Rem_Face for R1,
 MR_Replace_Vertex for R2

---
 include/MEdge_jmp.h   | 2 +-
 include/MRegion_jmp.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/MEdge_jmp.h b/include/MEdge_jmp.h
index 72039c7..143f14b 100644
--- a/include/MEdge_jmp.h
+++ b/include/MEdge_jmp.h
@@ -138,7 +138,7 @@ extern "C" {
   void ME_Rem_Face_R2(MEdge_ptr e, MFace_ptr f);
   void ME_Rem_Face_R4(MEdge_ptr e, MFace_ptr f);
   static void (*ME_Rem_Face_jmp[MSTK_MAXREP])(MEdge_ptr e, MFace_ptr f) =
-  {ME_Rem_Face_F1, ME_Rem_Face_F4, ME_Add_Face_R1, ME_Rem_Face_R2, 
+  {ME_Rem_Face_F1, ME_Rem_Face_F4, ME_Rem_Face_R1, ME_Rem_Face_R2, 
    ME_Rem_Face_R4};
 
   void ME_Add_Region_F1(MEdge_ptr e, MRegion_ptr r);
diff --git a/include/MRegion_jmp.h b/include/MRegion_jmp.h
index 78795c7..83b4ffa 100644
--- a/include/MRegion_jmp.h
+++ b/include/MRegion_jmp.h
@@ -201,7 +201,7 @@ void MR_Replace_Vertex_R2(MRegion_ptr r, MVertex_ptr v,MVertex_ptr nuv);
 static void 
 (*MR_Replace_Vertex_jmp[MSTK_MAXREP])(MRegion_ptr r, MVertex_ptr v, MVertex_ptr nuv) =
 {MR_Replace_Vertex_FNR3R4, MR_Replace_Vertex_FNR3R4, MR_Replace_Vertex_R1, 
- MR_Replace_Vertex_R1, MR_Replace_Vertex_FNR3R4};
+ MR_Replace_Vertex_R2, MR_Replace_Vertex_FNR3R4};
 
 void MR_Replace_Vertex_i_FNR3R4(MRegion_ptr r, int i, MVertex_ptr nuv);
 void MR_Replace_Vertex_i_R1(MRegion_ptr r, int i, MVertex_ptr nuv);
-- 
2.43.0


From 21ba716592c73565388bab6c2b369ad6a0d8b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 15/75] fix: MF_RegionIDs_R4 used the wrong record layout;
 MF_Regions_R4 returned an empty list

---
 src/base/MF_Region_Funcs_R4.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 963a717..7465d6f 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -17,22 +17,26 @@ extern "C" {
 
 
   List_ptr MF_Regions_R4(MFace_ptr f) {
-    List_ptr fregs;
+    List_ptr fregs = NULL;
     MFace_Adj_R3 *adj;
 
     adj = (MFace_Adj_R3 *) f->adj;
 
-    fregs = List_New(2);
-    if (adj->fregions[0])
+    if (adj->fregions[0]) {
+      fregs = List_New(2);
       List_Add(fregs,adj->fregions[0]);
-    if (adj->fregions[1])
+    }
+    if (adj->fregions[1]) {
+      if (!fregs)
+        fregs = List_New(1);
       List_Add(fregs,adj->fregions[1]);
+    }
 
     return fregs;
   }
 
   void MF_RegionIDs_R4(MFace_ptr f, int *nfr, int *fregids) {
-    MFace_Adj_F1F3 *adj = (MFace_Adj_F1F3 *) f->adj;
+    MFace_Adj_R4 *adj = (MFace_Adj_R4 *) f->adj;
 
     *nfr = 0;
     if (adj->fregions[0])
-- 
2.43.0


From eb483f6c5dec289b063808cf487065b5ad4d46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 16/75] fix: ME_FaceIDs (R4) and MV_FaceIDs (R2) used another
 representation's query

---
 src/base/ME_Face_Funcs_R3R4.c | 2 +-
 src/base/MVertex_R2.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/ME_Face_Funcs_R3R4.c b/src/base/ME_Face_Funcs_R3R4.c
index 0728a3d..6c6dc7f 100644
--- a/src/base/ME_Face_Funcs_R3R4.c
+++ b/src/base/ME_Face_Funcs_R3R4.c
@@ -89,7 +89,7 @@ extern "C" {
   }
 
   void ME_FaceIDs_R3R4(MEdge_ptr e, int *nef, int *efaceids) {
-    List_ptr efaces = ME_Faces_R1R2(e);
+    List_ptr efaces = ME_Faces_R3R4(e);
     if (efaces) {
       int i;
       *nef = List_Num_Entries(efaces);
diff --git a/src/base/MVertex_R2.c b/src/base/MVertex_R2.c
index d134e90..4a69441 100644
--- a/src/base/MVertex_R2.c
+++ b/src/base/MVertex_R2.c
@@ -260,7 +260,7 @@ extern "C" {
   }
 
   void MV_FaceIDs_R2(MVertex_ptr v, int *nvf, int *vfaceids) {
-    List_ptr vfaces = MV_Faces_R1(v);
+    List_ptr vfaces = MV_Faces_R2(v);
     if (vfaces) {
       int i;
       *nvf = List_Num_Entries(vfaces);
-- 
2.43.0


From 66f456f866fa7a27c81ab9da7430c9bf57bddc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 17/75] fix: MR_Delete_R1 freed the region that its caller
 still uses and frees

---
 src/base/MRegion_R1.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index eec17c3..d399bcb 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -55,8 +55,6 @@ extern "C" {
 	}
 	free(adj);
       }
-
-      free(r);
     }
   }
 
-- 
2.43.0


From 7f4ad4b5f55a2de9e5c5f795a3828e9762af507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 18/75] fix: lock and hash link of new R2/R4 entities were not
 initialised

---
 src/base/MEdge_R2.c | 1 +
 src/base/MEdge_R4.c | 1 +
 src/base/MFace_R2.c | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/src/base/MEdge_R2.c b/src/base/MEdge_R2.c
index 3cbf036..83e67af 100644
--- a/src/base/MEdge_R2.c
+++ b/src/base/MEdge_R2.c
@@ -22,6 +22,7 @@ extern "C" {
 
     adj = e->adj = (MEdge_Adj_RN *) malloc(sizeof(MEdge_Adj_RN));
     adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void ME_Delete_R2(MEdge_ptr e, int keep) {
diff --git a/src/base/MEdge_R4.c b/src/base/MEdge_R4.c
index e2afa92..87ca03e 100644
--- a/src/base/MEdge_R4.c
+++ b/src/base/MEdge_R4.c
@@ -22,6 +22,7 @@ extern "C" {
 
     adj = e->adj = (MEdge_Adj_RN *) malloc(sizeof(MEdge_Adj_RN));
     adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void ME_Delete_R4(MEdge_ptr e, int keep) {
diff --git a/src/base/MFace_R2.c b/src/base/MFace_R2.c
index 7d673dc..c67a668 100644
--- a/src/base/MFace_R2.c
+++ b/src/base/MFace_R2.c
@@ -22,6 +22,9 @@ extern "C" {
 
     adj = f->adj = (MFace_Adj_R2 *) malloc(sizeof(MFace_Adj_R2));
     adj->fvertices = NULL;
+    adj->adjfaces = NULL;
+    adj->hnext = NULL;
+    adj->lock = 0;
   }
 
   void MF_Delete_R2(MFace_ptr f, int keep) {
-- 
2.43.0


From 7184e3b3e1ee37cd45b45f67b03bddebb7ddce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 19/75] fix: MESH_Send_MSet freed the buffer of a nonblocking
 send still in progress

---
 src/par/MESH_Send_MSet.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/par/MESH_Send_MSet.c b/src/par/MESH_Send_MSet.c
index c71f639..4e337c2 100644
--- a/src/par/MESH_Send_MSet.c
+++ b/src/par/MESH_Send_MSet.c
@@ -48,6 +48,19 @@ extern "C" {
       *requests = (MPI_Request *) realloc(*requests,*maxreq*sizeof(MPI_Request));
     }
   
+    /* make room to track the buffers used for sending; they can be freed
+       only in a higher level routine after the sends have completed */
+
+    if (*maxptrs2free == 0) {
+      *maxptrs2free = 25;
+      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
+      *numptrs2free = 0;
+    }
+    else if (*maxptrs2free < (*numptrs2free) + 2) {
+      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
+      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
+    }
+
     mtype = MSet_EntDim(mset);
     nent = MSet_Num_Entries(mset);
 
@@ -58,10 +71,10 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    if (!nent) {
-      free(list_info);
+    (*ptrs2free)[(*numptrs2free)++] = list_info;
+
+    if (!nent)
       return 1;
-    }
 
     /* attribute index and global id */ 
     num = 2*nent;
@@ -79,20 +92,7 @@ extern "C" {
     (*requests)[*numreq] = mpirequest;
     (*numreq)++;
 
-    /* track the buffers used for sending */
-
-    if (*maxptrs2free == 0) {
-      *maxptrs2free = 25;
-      *ptrs2free = (void **) malloc(*maxptrs2free*sizeof(void *));
-      *numptrs2free = 0;
-    }
-    else if (*maxptrs2free < (*numptrs2free) + 2) {
-      *maxptrs2free = 2*(*maxptrs2free) + 2 ;
-      *ptrs2free = (void **) realloc(*ptrs2free,(*maxptrs2free)*sizeof(void *));
-    }
-
-    (*ptrs2free)[(*numptrs2free)++] = list_info;
-    (*ptrs2free)[(*numptrs2free)++] = list_value_int;  
+    (*ptrs2free)[(*numptrs2free)++] = list_value_int;
   
     return 1;
   }
-- 
2.43.0


From 16c878a01a138a05c97bbd8b7186356bf6f776ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 20/75] fix: MESH_Parallel_AddGhost leaked its request and
 pointer lists

---
 src/par/MESH_Parallel_AddGhost.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Parallel_AddGhost.c b/src/par/MESH_Parallel_AddGhost.c
index f951b78..1027fc1 100644
--- a/src/par/MESH_Parallel_AddGhost.c
+++ b/src/par/MESH_Parallel_AddGhost.c
@@ -128,12 +128,12 @@ extern "C" {
 
     if (MPI_Waitall(numreq,requests,MPI_STATUSES_IGNORE) != MPI_SUCCESS)
       MSTK_Report("MSTK_Mesh_Distribute","Problem distributing mesh",MSTK_FATAL);
-    if (numreq) free(requests);
+    free(requests);
   
     /* free all the memory allocated in sendmesh routines */
     int p;
     for (p = 0; p < numptrs2free; ++p) free(ptrs2free[p]);
-    if (numptrs2free) free(ptrs2free);
+    free(ptrs2free);
   
 
     /* install the recv_meshes */
@@ -222,12 +222,12 @@ extern "C" {
 
     if (MPI_Waitall(numreq,requests,MPI_STATUSES_IGNORE) != MPI_SUCCESS)
       MSTK_Report("MSTK_Mesh_Distribute","Problem distributing mesh",MSTK_FATAL);
-    if (numreq) free(requests);
+    free(requests);
   
     /* free all the memory allocated in sendmesh routines */
     int p;
     for (p = 0; p < numptrs2free; ++p) free(ptrs2free[p]);
-    if (numptrs2free) free(ptrs2free);
+    free(ptrs2free);
 
   
     /* concatenate the recv_meshes */
-- 
2.43.0


From d2f04a7bb4f1f7ef7ab885ad966f52d97e11c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 21/75] fix: MESH_Parallel_Check deadlocked when the ghost
 check failed on some processes only

---
 src/par/MESH_Parallel_Check.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/par/MESH_Parallel_Check.c b/src/par/MESH_Parallel_Check.c
index eb7d9c1..67cde71 100644
--- a/src/par/MESH_Parallel_Check.c
+++ b/src/par/MESH_Parallel_Check.c
@@ -40,8 +40,9 @@ int MESH_Parallel_Check(Mesh_ptr mesh, MSTK_Comm comm) {
   fprintf(stderr,"Begin checking parallel information on submesh %d\n",rank);
 #endif
   valid = MESH_Parallel_Check_Ghost(mesh,rank);
-  if(valid)
-    valid = MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
+
+  /* collective - must be called on all ranks even if the local check failed */
+  valid &= MESH_Parallel_Check_GlobalID(mesh,rank,num,comm);
 #ifdef DEBUG
   if (valid) fprintf(stderr,"Passed parallel checking on submesh %d\n",rank);
   else fprintf(stderr,"Failed parallel checking on submesh %d\n",rank);
-- 
2.43.0


From 3b7c720359cd89b5ab447544c509b56823c28da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 22/75] fix: MESH_Renumber_GlobalIDs hung when a process had no
 entities of a type

---
 src/par/MESH_Renumber_GlobalIDs.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/par/MESH_Renumber_GlobalIDs.c b/src/par/MESH_Renumber_GlobalIDs.c
index 8605179..ef91ea8 100644
--- a/src/par/MESH_Renumber_GlobalIDs.c
+++ b/src/par/MESH_Renumber_GlobalIDs.c
@@ -43,13 +43,23 @@ extern "C" {
                   "Renumbering according to pre-assigned numbering not yet implemented",
                   MSTK_ERROR);
     } else {
-      if (MESH_Num_Vertices(mesh) && (mtype == MVERTEX || mtype == MALLTYPE))
+      /* Renumbering is collective - all processors must agree on which
+         types of entities to renumber even if some have none locally */
+
+      int nlocal[4], nmax[4];
+      nlocal[MVERTEX] = MESH_Num_Vertices(mesh);
+      nlocal[MEDGE] = MESH_Num_Edges(mesh);
+      nlocal[MFACE] = MESH_Num_Faces(mesh);
+      nlocal[MREGION] = MESH_Num_Regions(mesh);
+      MPI_Allreduce(nlocal, nmax, 4, MPI_INT, MPI_MAX, comm);
+
+      if (nmax[MVERTEX] && (mtype == MVERTEX || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MVERTEX, method, NULL, comm);
-      if (MESH_Num_Edges(mesh) && (mtype == MEDGE || mtype == MALLTYPE))
+      if (nmax[MEDGE] && (mtype == MEDGE || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MEDGE, method, NULL, comm);
-      if (MESH_Num_Faces(mesh) && (mtype == MFACE || mtype == MALLTYPE))
+      if (nmax[MFACE] && (mtype == MFACE || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MFACE, method, NULL, comm);
-      if (MESH_Num_Regions(mesh) && (mtype == MREGION || mtype == MALLTYPE))
+      if (nmax[MREGION] && (mtype == MREGION || mtype == MALLTYPE))
         MESH_Renumber_EntityGlobalIDs(mesh, MREGION, method, NULL, comm);
 
       // Ghost entity management in the mesh relies on ghost lists
-- 
2.43.0


From 92b6690221dbcee820a1aac6701561c605bc8228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:28 +0000
Subject: [PATCH 23/75] fix: MESH_ExportToDXBin overran its triangle, prism and
 pyramid buffers

---
 src/io/MESH_ExportToDXBin.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToDXBin.c b/src/io/MESH_ExportToDXBin.c
index 3f95fcc..f77c768 100644
--- a/src/io/MESH_ExportToDXBin.c
+++ b/src/io/MESH_ExportToDXBin.c
@@ -119,6 +119,11 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 	  dattri = (float *)malloc(maxtri*sizeof(float));
 	}
 	nbtris++;
+	if (nbtris > maxtri) {
+	  maxtri = 2*nbtris;
+	  idbtri = (int *) realloc(idbtri,3*maxtri*sizeof(int));
+	  dattri = (float *) realloc(dattri,maxtri*sizeof(float));
+	}
 	for (k = 0; k < nvf; k++)
 	  idbtri[bt++] = MV_ID(List_Entry(verts,k))-1;	
 	dattri[nbtris-1] = MF_GEntID(face);
@@ -261,7 +266,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
 	case 3: /****** TRIANGULAR PRISM *******/
 	  if (!idbprm) {
-	    idbprm = (int *)malloc(6*nreg*sizeof(int));
+	    idbprm = (int *)malloc(8*nreg*sizeof(int));
 	    datprm = (float *)malloc(nreg*sizeof(float));
 	  }
 
@@ -345,7 +350,7 @@ void MESH_ExportToDXBin(Mesh_ptr mesh, const char *fname) {
 
 	case 4: /***** PYRAMID *****/
 	  if (!idbpyr) {
-	    idbpyr = (int *)malloc(5*nreg*sizeof(int));
+	    idbpyr = (int *)malloc(8*nreg*sizeof(int));
 	    datpyr = (float *)malloc(nreg*sizeof(float));
 	  }
 
-- 
2.43.0


From 02f6318a515c95251662593dad902319a11e86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 24/75] fix: connect F4 regions and faces to their edges
 (MR_Set_Faces, MF_Delete, MF_Restore)

---
 src/base/MFace_F4.c             | 24 +++++++++++++++++++++++-
 src/base/MR_Face_Funcs_FNR3R4.c |  8 ++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/base/MFace_F4.c b/src/base/MFace_F4.c
index 64a0b48..f13bfed 100644
--- a/src/base/MFace_F4.c
+++ b/src/base/MFace_F4.c
@@ -28,9 +28,20 @@ extern "C" {
 
   void MF_Delete_F4(MFace_ptr f, int keep) {
     MFace_Adj_F2F4 *adj;
+    int idx;
+    MEdge_ptr e;
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+
+    if (MEnt_Dim((MEntity_ptr) f) != MDELETED) { /* if face hasnt been temporarily deleted */
+      if (adj && adj->fedges) {
+	idx = 0;
+	while ((e = List_Next_Entry(adj->fedges,&idx)))
+	  ME_Rem_Face(e,f);
+      }
+    }
 
     if (!keep) {
-      adj = (MFace_Adj_F2F4 *) f->adj;
       if (adj) {
 	if (adj->fedges)
 	  List_Delete(adj->fedges);
@@ -40,7 +51,18 @@ extern "C" {
   }
 
   void MF_Restore_F4(MFace_ptr f) {
+    MFace_Adj_F2F4 *adj;
+    int idx;
+    MEdge_ptr e;
+
     MEnt_Set_Dim((MEntity_ptr) f,MFACE);
+
+    adj = (MFace_Adj_F2F4 *) f->adj;
+    if (adj && adj->fedges) {
+      idx = 0;
+      while ((e = List_Next_Entry(adj->fedges,&idx)))
+	ME_Add_Face(e,f);
+    }
   }
 
   void MF_Destroy_For_MESH_Delete_F4(MFace_ptr f) {
diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 1883caa..dc2923d 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -96,6 +96,14 @@ extern "C" {
 
       if (MEnt_RepType((MEntity_ptr) r) != F4) 
 	MF_Add_Region(rfaces[i],r,!dirs[i]);
+      else {
+	/* In F4, the upward connection to the region is through edges */
+	List_ptr fedges = MF_Edges(rfaces[i],1,0);
+	int ie, ne = List_Num_Entries(fedges);
+	for (ie = 0; ie < ne; ie++)
+	  ME_Add_Region(List_Entry(fedges,ie),r);
+	List_Delete(fedges);
+      }
     }
 
     MR_Update_ElementType_FNR3R4(r);
-- 
2.43.0


From 2168df215892f72bddb7480be1ef775da6cacb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:02 +0000
Subject: [PATCH 25/75] fix: MR_Replace_Vertex(_i) in R1, R2 updates the
 vertices' upward connection

---
 src/base/MR_Vertex_Funcs_R1.c | 4 ++++
 src/base/MR_Vertex_Funcs_R2.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/base/MR_Vertex_Funcs_R1.c b/src/base/MR_Vertex_Funcs_R1.c
index 1166f00..cb43e88 100644
--- a/src/base/MR_Vertex_Funcs_R1.c
+++ b/src/base/MR_Vertex_Funcs_R1.c
@@ -209,7 +209,9 @@ extern "C" {
     nv = List_Num_Entries(adj->rvertices);
     for (i = 0; i < nv; i++)
       if (v == (MVertex_ptr) List_Entry(adj->rvertices,i)) {
+	MV_Rem_Region(v,r);
 	List_Replacei(adj->rvertices,i,nuv);
+	MV_Add_Region(nuv,r);
 	return;
       }
   }
@@ -225,7 +227,9 @@ extern "C" {
 #endif
 
     adj = (MRegion_Adj_R1 *) r->adj;
+    MV_Rem_Region(List_Entry(adj->rvertices,i),r);
     List_Replacei(adj->rvertices,i,nuv);
+    MV_Add_Region(nuv,r);
   }
 
 
diff --git a/src/base/MR_Vertex_Funcs_R2.c b/src/base/MR_Vertex_Funcs_R2.c
index cb3dab0..220098e 100644
--- a/src/base/MR_Vertex_Funcs_R2.c
+++ b/src/base/MR_Vertex_Funcs_R2.c
@@ -209,7 +209,9 @@ extern "C" {
     nv = List_Num_Entries(adj->rvertices);
     for (i = 0; i < nv; i++)
       if (v == (MVertex_ptr) List_Entry(adj->rvertices,i)) {
+	MV_Rem_Region(v,r);
 	List_Replacei(adj->rvertices,i,nuv);
+	MV_Add_Region(nuv,r);
 	return;
       }
   }
@@ -225,7 +227,9 @@ extern "C" {
 #endif
 
     adj = (MRegion_Adj_R2 *) r->adj;
+    MV_Rem_Region(List_Entry(adj->rvertices,i),r);
     List_Replacei(adj->rvertices,i,nuv);
+    MV_Add_Region(nuv,r);
   }
 
 
-- 
2.43.0


From e2afa42bcf69124ddbfaf99ffa055cbbf97ac864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 26/75] fix: walk the vertices, not the edges, of each face in
 MR_Edges for R4 meshes

---
 src/base/MR_Edge_Funcs_R3R4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/MR_Edge_Funcs_R3R4.c b/src/base/MR_Edge_Funcs_R3R4.c
index a202165..e70dc8d 100644
--- a/src/base/MR_Edge_Funcs_R3R4.c
+++ b/src/base/MR_Edge_Funcs_R3R4.c
@@ -162,7 +162,7 @@ extern "C" {
       for (i = 1; i < nf-1 && n < 12; i++) {
 	face = List_Entry(adj->rfaces,i);
 
-	fverts = MF_Edges(face,1,0);
+	fverts = MF_Vertices(face,1,0);
 
 	for (j = 0; j < 4 && n < 12; j++) {
 	  v[0] = List_Entry(fverts,j);
@@ -229,7 +229,7 @@ extern "C" {
     for (i = 1; i < nf-1; i++) {
       face = List_Entry(adj->rfaces,i);
 
-      fverts = MF_Edges(face,1,0);
+      fverts = MF_Vertices(face,1,0);
       nfv = List_Num_Entries(fverts);
 
       for (j = 0; j < nfv; j++) {
-- 
2.43.0


From d3fd64af9f118dabcd9a497c6dea75f1e7fb4a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 27/75] fix: MF_VertexIDs (R2, R4) and MR_AdjRegionIDs (R1) did
 not return the number of ids

---
 src/base/MF_Vertex_Funcs_R2.c | 1 +
 src/base/MF_Vertex_Funcs_R4.c | 1 +
 src/base/MRegion_R1.c         | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/base/MF_Vertex_Funcs_R2.c b/src/base/MF_Vertex_Funcs_R2.c
index af718c8..9a15675 100644
--- a/src/base/MF_Vertex_Funcs_R2.c
+++ b/src/base/MF_Vertex_Funcs_R2.c
@@ -336,6 +336,7 @@ extern "C" {
 
     adj = (MFace_Adj_R2 *) f->adj;
     nv = List_Num_Entries(adj->fvertices);
+    *nfv = nv;
 
     if (!startvertid) {
       if (dir) {
diff --git a/src/base/MF_Vertex_Funcs_R4.c b/src/base/MF_Vertex_Funcs_R4.c
index 6af1153..0fe40e3 100644
--- a/src/base/MF_Vertex_Funcs_R4.c
+++ b/src/base/MF_Vertex_Funcs_R4.c
@@ -274,6 +274,7 @@ extern "C" {
 
     adj = (MFace_Adj_R2 *) f->adj;
     nv = List_Num_Entries(adj->fvertices);
+    *nfv = nv;
 
     if (!startvertid) {
       if (dir) {
diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index d399bcb..f132dae 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -153,6 +153,7 @@ extern "C" {
 
 
   void MR_AdjRegionIDs_R1(MRegion_ptr r, int *nradj, int *adjregids) {
+    *nradj = 0;
     MSTK_Report("MR_AdjRegionIDs",
 		"Not yet implemented for this representation",MSTK_WARN);
   }
-- 
2.43.0


From ec043b6392d822e724ab54ef8cc543a0884088ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 28/75] fix: MESH_WriteToFile crashed writing reduced
 adjacencies of entities without neighbours

---
 src/base/MESH_WriteToFile.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 2973c5d..8dedc8b 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -143,7 +143,8 @@ extern "C" {
 	fprintf(fp,"%d ",mvid2);
       }
       fprintf(fp,"\n");
-      List_Delete(adjverts);
+      if (adjverts)
+        List_Delete(adjverts);
     }
   }
 
@@ -298,8 +299,8 @@ extern "C" {
 	adjregs = MR_AdjRegions(mr);
 
 	for (j = 0; j < nar; j++) {
-	  mr2 = List_Entry(adjregs,j);
-	  if ((long) mr2 == -1) 
+	  mr2 = adjregs ? List_Entry(adjregs,j) : NULL;
+	  if (!mr2 || (long) mr2 == -1) 
 	    fprintf(fp,"%d ",0);
 	  else {
 	    MEnt_Get_AttVal(mr2,ridatt,&mrid2,&rval,&pval);
@@ -307,7 +308,8 @@ extern "C" {
 	  }
 	}
 	fprintf(fp,"\n");
-	List_Delete(adjregs);
+	if (adjregs)
+	  List_Delete(adjregs);
       }
     }
   }
-- 
2.43.0


From 02ae0744b3568517cd264afba933509a4aecf1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 29/75] fix: base adjacency queries crashed on entities without
 neighbours

---
 src/base/ME_Face_Funcs_R3R4.c   | 4 ++--
 src/base/ME_Region_Funcs_RN.c   | 4 ++--
 src/base/MF_Region_Funcs_F1F3.c | 4 +++-
 src/base/MF_Region_Funcs_F2F4.c | 3 +++
 src/base/MF_Region_Funcs_R1.c   | 3 +++
 src/base/MF_Region_Funcs_R2.c   | 3 +++
 src/base/MF_Region_Funcs_R4.c   | 4 +++-
 src/base/MFace_F1.c             | 2 ++
 src/base/MVertex_F1.c           | 2 ++
 src/base/MVertex_F4.c           | 4 ++++
 src/base/MVertex_R1.c           | 4 ++++
 src/base/MVertex_R2.c           | 2 ++
 src/base/MVertex_R4.c           | 2 ++
 13 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/base/ME_Face_Funcs_R3R4.c b/src/base/ME_Face_Funcs_R3R4.c
index 6c6dc7f..a621ad6 100644
--- a/src/base/ME_Face_Funcs_R3R4.c
+++ b/src/base/ME_Face_Funcs_R3R4.c
@@ -46,7 +46,7 @@ extern "C" {
       ev[i] = ME_Vertex(e,i);
 
     vfaces = MV_Faces(ev[0]);
-    nvf = List_Num_Entries(vfaces);
+    nvf = vfaces ? List_Num_Entries(vfaces) : 0;
 
     /* Go through all faces connected to ev[0] and pick out ones which
        use this edge. Do this by checking if ev[0] and ev[1] are
@@ -78,7 +78,7 @@ extern "C" {
 	nef++;
       }
     }
-    List_Delete(vfaces);
+    if (vfaces) List_Delete(vfaces);
 
     if (nef)
       return efaces;
diff --git a/src/base/ME_Region_Funcs_RN.c b/src/base/ME_Region_Funcs_RN.c
index 685faee..d572cf0 100644
--- a/src/base/ME_Region_Funcs_RN.c
+++ b/src/base/ME_Region_Funcs_RN.c
@@ -25,7 +25,7 @@ extern "C" {
 
     vregs = MV_Regions(e->vertex[0]);
     idx = 0;
-    while ((reg = List_Next_Entry(vregs,&idx))) {
+    while (vregs && (reg = List_Next_Entry(vregs,&idx))) {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	ne++;
     }
@@ -43,7 +43,7 @@ extern "C" {
 
     vregs = MV_Regions(e->vertex[0]);
     idx = 0;
-    while ((reg = List_Next_Entry(vregs,&idx))) {
+    while (vregs && (reg = List_Next_Entry(vregs,&idx))) {
       if (MR_UsesEntity(reg,e->vertex[1],MVERTEX))
 	List_Add(eregs,reg);
     }
diff --git a/src/base/MF_Region_Funcs_F1F3.c b/src/base/MF_Region_Funcs_F1F3.c
index 83a1d27..033e115 100644
--- a/src/base/MF_Region_Funcs_F1F3.c
+++ b/src/base/MF_Region_Funcs_F1F3.c
@@ -50,7 +50,9 @@ extern "C" {
   }
 
   int MF_RegionID_F1F3(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_F1F3 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_F1F3 *) f->adj)->fregions[i];
+
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_F1F3(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MF_Region_Funcs_F2F4.c b/src/base/MF_Region_Funcs_F2F4.c
index 08bec49..d2f616a 100644
--- a/src/base/MF_Region_Funcs_F2F4.c
+++ b/src/base/MF_Region_Funcs_F2F4.c
@@ -57,6 +57,9 @@ extern "C" {
   void MF_RegionIDs_F2F4(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_F2F4(f);
+    *nfr = 0;
+    if (!fregs)
+      return;
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R1.c b/src/base/MF_Region_Funcs_R1.c
index ebca8a3..beab09b 100644
--- a/src/base/MF_Region_Funcs_R1.c
+++ b/src/base/MF_Region_Funcs_R1.c
@@ -68,6 +68,9 @@ extern "C" {
   void MF_RegionIDs_R1(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_R1(f);
+    *nfr = 0;
+    if (!fregs)
+      return;
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R2.c b/src/base/MF_Region_Funcs_R2.c
index c4a2571..d21ee3b 100644
--- a/src/base/MF_Region_Funcs_R2.c
+++ b/src/base/MF_Region_Funcs_R2.c
@@ -68,6 +68,9 @@ extern "C" {
   void MF_RegionIDs_R2(MFace_ptr f, int *nfr, int *fregids) {
     int i;
     List_ptr fregs = MF_Regions_R2(f);
+    *nfr = 0;
+    if (!fregs)
+      return;
     *nfr = List_Num_Entries(fregs);
     for (i = 0; i < *nfr; i++)
       fregids[i] = MEnt_ID(List_Entry(fregs,i));
diff --git a/src/base/MF_Region_Funcs_R4.c b/src/base/MF_Region_Funcs_R4.c
index 7465d6f..357ef7c 100644
--- a/src/base/MF_Region_Funcs_R4.c
+++ b/src/base/MF_Region_Funcs_R4.c
@@ -52,7 +52,9 @@ extern "C" {
   }
 
   int MF_RegionID_R4(MFace_ptr f, int i) {
-    return MEnt_ID(((MFace_Adj_R4 *) f->adj)->fregions[i]);
+    MRegion_ptr r = ((MFace_Adj_R4 *) f->adj)->fregions[i];
+
+    return r ? MEnt_ID(r) : 0;
   }
 
   void MF_Add_Region_R4(MFace_ptr f, MRegion_ptr r, int side) {
diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index a17cd30..4f6754a 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -169,6 +169,8 @@ extern "C" {
 #endif
 
     adjfaces = MF_AdjFaces_F1(f);
+    if (!adjfaces)
+      return 0;
     nf = List_Num_Entries(adjfaces);
     List_Delete(adjfaces);
     return nf;
diff --git a/src/base/MVertex_F1.c b/src/base/MVertex_F1.c
index df30d34..06bb32d 100644
--- a/src/base/MVertex_F1.c
+++ b/src/base/MVertex_F1.c
@@ -94,6 +94,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F1(v);
+    if (!vregions)
+      return 0;
     nr = List_Num_Entries(vregions);
     List_Delete(vregions);
 
diff --git a/src/base/MVertex_F4.c b/src/base/MVertex_F4.c
index 1b3c1d5..46ee4a0 100644
--- a/src/base/MVertex_F4.c
+++ b/src/base/MVertex_F4.c
@@ -75,6 +75,8 @@ extern "C" {
 #endif
     
     vfaces = MV_Faces_F4(v);
+    if (!vfaces)
+      return 0;
     nf = List_Num_Entries(vfaces);
     List_Delete(vfaces);
     return nf;
@@ -91,6 +93,8 @@ extern "C" {
 #endif
 	
     vregions = MV_Regions_F4(v);
+    if (!vregions)
+      return 0;
     nr = List_Num_Entries(vregions);
     List_Delete(vregions);
     return nr;
diff --git a/src/base/MVertex_R1.c b/src/base/MVertex_R1.c
index a7febee..c5a5630 100644
--- a/src/base/MVertex_R1.c
+++ b/src/base/MVertex_R1.c
@@ -73,6 +73,8 @@ extern "C" {
 #endif
     
     vedges = MV_Edges_R1(v);
+    if (!vedges)
+      return 0;
     ne = List_Num_Entries(vedges);
     List_Delete(vedges);
     return ne;
@@ -89,6 +91,8 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R1(v);
+    if (!vfaces)
+      return 0;
     nf = List_Num_Entries(vfaces);
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
diff --git a/src/base/MVertex_R2.c b/src/base/MVertex_R2.c
index 4a69441..9667851 100644
--- a/src/base/MVertex_R2.c
+++ b/src/base/MVertex_R2.c
@@ -102,6 +102,8 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vfaces = MV_Faces_R2(v);
+    if (!vfaces)
+      return 0;
     nf = List_Num_Entries(vfaces);
     for (i = 0; i < nf; i++) {
       vface = List_Entry(vfaces,i);
diff --git a/src/base/MVertex_R4.c b/src/base/MVertex_R4.c
index 6e43e62..f3274d2 100644
--- a/src/base/MVertex_R4.c
+++ b/src/base/MVertex_R4.c
@@ -105,6 +105,8 @@ extern "C" {
 		MSTK_MESG);
 #endif
     vregions = MV_Regions_R4(v);
+    if (!vregions)
+      return 0;
     nr = List_Num_Entries(vregions);
     List_Delete(vregions);
 
-- 
2.43.0


From 68cab59676b1971c4b701b9293dd2b2b0dc039e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 30/75] fix: MF_VertexIDs (R2, R4) listed the vertices of a
 reversed face in forward order

---
 src/base/MF_Vertex_Funcs_R2.c | 2 +-
 src/base/MF_Vertex_Funcs_R4.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/MF_Vertex_Funcs_R2.c b/src/base/MF_Vertex_Funcs_R2.c
index 9a15675..da5e9b4 100644
--- a/src/base/MF_Vertex_Funcs_R2.c
+++ b/src/base/MF_Vertex_Funcs_R2.c
@@ -345,7 +345,7 @@ extern "C" {
       }
       else {
 	for (i = nv-1; i >= 0; i--)
-          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
+          fvertids[nv-1-i] = MEnt_ID(List_Entry(adj->fvertices,i));
       }
     }
     else {
diff --git a/src/base/MF_Vertex_Funcs_R4.c b/src/base/MF_Vertex_Funcs_R4.c
index 0fe40e3..f738459 100644
--- a/src/base/MF_Vertex_Funcs_R4.c
+++ b/src/base/MF_Vertex_Funcs_R4.c
@@ -283,7 +283,7 @@ extern "C" {
       }
       else {
 	for (i = nv-1; i >= 0; i--)
-          fvertids[i] = MEnt_ID(List_Entry(adj->fvertices,i));
+          fvertids[nv-1-i] = MEnt_ID(List_Entry(adj->fvertices,i));
       }
     }
     else {
-- 
2.43.0


From aa287e50a499b53030885faa9508eba1b9c08911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 31/75] fix: MESH_Partition_and_Send left
 Local2Global/Global2Local attributes pointing at freed lists

---
 src/par/MESH_Partition_and_Send.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/par/MESH_Partition_and_Send.c b/src/par/MESH_Partition_and_Send.c
index f8a211d..8140477 100644
--- a/src/par/MESH_Partition_and_Send.c
+++ b/src/par/MESH_Partition_and_Send.c
@@ -342,6 +342,11 @@ extern "C" {
     }
 
 
+    /* The link from the submesh to the parent mesh is not needed anymore */
+
+    l2gatt = MESH_AttribByName(submeshes[rank],"Local2Global");
+    if (l2gatt) MAttrib_Delete(l2gatt);
+
     if (*mysubmesh == NULL)
       *mysubmesh = submeshes[rank];
     else
@@ -376,9 +381,8 @@ extern "C" {
     free(submeshes);
 
 
-    /* Delete the lists associated with g2latt attribute but don't
-       remove attribute itself from each of these entities - it will
-       get deleted when the mesh gets deleted */
+    /* Delete the lists associated with g2latt attribute and then the
+       attribute itself */
 
     idx = 0;
     while ((mv = MESH_Next_Vertex(parentmesh,&idx))) {
@@ -403,6 +407,7 @@ extern "C" {
       MEnt_Get_AttVal(mr,g2latt,&ival,&rval,&g2llist);
       if (g2llist) List_Delete(g2llist);
     }	
+    MAttrib_Delete(g2latt);
 	
     if (del_inmesh) MESH_Delete(parentmesh);
     return 1;
-- 
2.43.0


From daaf49100f88f88dc88bf14d4a6ad2774dc7a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 32/75] fix: hilev routines left temporary attributes on the
 mesh

---
 src/hilev/MESH_Renumber.c | 2 ++
 src/hilev/MESH_Tet2Hex.c  | 3 +++
 src/hilev/MESH_Tri2Quad.c | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 4dde840..0506982 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -1048,6 +1048,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 
 #ifdef MSTK_USE_MARKERS
     MSTK_FreeMarker(mkid);
+#else
+    MAttrib_Delete(mkatt);
 #endif
   }
   
diff --git a/src/hilev/MESH_Tet2Hex.c b/src/hilev/MESH_Tet2Hex.c
index 0662032..18d5cc3 100644
--- a/src/hilev/MESH_Tet2Hex.c
+++ b/src/hilev/MESH_Tet2Hex.c
@@ -101,6 +101,9 @@ extern "C" {
       MF_Coords(ptr_f, &n, xyz_lst);
       if( n != 3 ) {
 	MSTK_Report("MESH_Tet2Hex","Input mesh is not a tetrahedral mesh",MSTK_WARN);
+	MAttrib_Delete(atr_v);
+	MAttrib_Delete(atr_e);
+	MAttrib_Delete(atr_f);
 	return 0;
       }
 
diff --git a/src/hilev/MESH_Tri2Quad.c b/src/hilev/MESH_Tri2Quad.c
index 8f0407c..b0744e9 100644
--- a/src/hilev/MESH_Tri2Quad.c
+++ b/src/hilev/MESH_Tri2Quad.c
@@ -99,6 +99,9 @@ extern "C" {
       MF_Coords(ptr_f, &n, xyz_lst);
       if( n != 3 ) {
 	MSTK_Report("MESH_Tri2Quad","Input mesh is not a triangle mesh",MSTK_WARN);
+	MAttrib_Delete(atr_v);
+	MAttrib_Delete(atr_e);
+	MAttrib_Delete(atr_f);
 	return 0;
       }
 
-- 
2.43.0


From 019cdc2d4458e26fbe9bc62ffc87addf22bc8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 33/75] fix: exporters and MESH_ReadExodusII_Partial left
 temporary attributes or markers behind

---
 src/io/MESH_ExportToExodusII.c     | 26 +++++++++++++-------------
 src/io/MESH_ExportToFLAGX3D.c      |  1 +
 src/io/MESH_ExportToGMV.c          |  8 +++++---
 src/io/MESH_ReadExodusII_Partial.c | 19 ++++++++++---------
 4 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 44d4f76..4b08462 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -212,6 +212,18 @@ extern "C" {
     int element_dim = -1, side_dim = -1;
     int num_element = 0, num_side = 0;
 
+    /* create ExodusII file */
+
+    int CPU_word_size=sizeof(double);
+    int IO_word_size=sizeof(double);
+    int exoid, err;
+    exoid = ex_create(modfilename,EX_CLOBBER,&CPU_word_size,&IO_word_size);
+    if (exoid < 0) {
+      MSTK_Report("MESH_ExportToExodusII", "Error in creation of Exodus file",
+                  MSTK_ERROR);
+      return 0;
+    }
+
     vidatt = MAttrib_New(mesh,"vidatt",INT,MVERTEX);
 
     if (nrall) {
@@ -447,19 +459,6 @@ extern "C" {
 
 
 
-    /* create ExodusII file */
-
-    int CPU_word_size=sizeof(double);
-    int IO_word_size=sizeof(double);
-    int exoid, err;
-    exoid = ex_create(modfilename,EX_CLOBBER,&CPU_word_size,&IO_word_size);
-    if (exoid < 0) {
-      MSTK_Report("MESH_ExportToExodusII", "Error in creation of Exodus file",
-                  MSTK_ERROR);
-      return 0;
-    }
-
-
     
     if(verbose) {
       if (enable_geometry_sets)
@@ -1699,6 +1698,7 @@ extern "C" {
         MEnt_Rem_AttVal(mf,fidatt);
       MAttrib_Delete(fidatt);
     }
+    MAttrib_Delete(block_type_att);
     
     return 1;
     
diff --git a/src/io/MESH_ExportToFLAGX3D.c b/src/io/MESH_ExportToFLAGX3D.c
index da802ed..359510b 100644
--- a/src/io/MESH_ExportToFLAGX3D.c
+++ b/src/io/MESH_ExportToFLAGX3D.c
@@ -1400,6 +1400,7 @@ int MESH_ExportToFLAGX3D(Mesh_ptr mesh, const char *filename, const int natt,
   MAttrib_Delete(eidatt_tmp);
   MAttrib_Delete(fidatt_tmp);
   MAttrib_Delete(ridatt_tmp);
+  MAttrib_Delete(vmasteratt);
   
   return 1;
 }
diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 259a775..c8e9ee6 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -70,7 +70,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   int                   ncells1=0, ncells2=0, ncells3=0;
   int                   ndup, NFACES, rid0, rid1, rid;
   int                   oppfid, opprid;
-  int                   sorted;
+  int                   sorted, status=1;
   double		vxyz[3], rval, *xcoord, *ycoord, *zcoord;
   void                 *pval;
   FILE		        *fp;
@@ -704,7 +704,8 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   if (ncells2) {
     if (opts && opts[1] == 1) {
       MSTK_Report(funcname,"vface2d not yet implemented",MSTK_WARN);
-      return 0;
+      status = 0;
+      goto cleanup;
     }
 
     idx = 0;
@@ -1315,6 +1316,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
 
   fprintf(fp,"endgmv\n");
 
+ cleanup:
   fclose(fp);
 
 
@@ -1351,7 +1353,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   if (flist) List_Delete(flist);
   if (rlist) List_Delete(rlist);
 
-  return 1;
+  return status;
 }
 
 #ifdef __cplusplus
diff --git a/src/io/MESH_ReadExodusII_Partial.c b/src/io/MESH_ReadExodusII_Partial.c
index 2333ec5..dff690b 100644
--- a/src/io/MESH_ReadExodusII_Partial.c
+++ b/src/io/MESH_ReadExodusII_Partial.c
@@ -1349,15 +1349,6 @@ extern "C" {
       }  /* if (nbad) */
 
 
-#ifdef MSTK_USE_MARKERS
-      idx = 0;
-      while ((mr = MESH_Next_Region(mesh, &idx)))
-        MEnt_Unmark(mr, reliable_rfdirs);
-      MSTK_FreeMarker(reliable_rfdirs);
-#else
-      MAttrib_Delete(dirflagatt);
-#endif
-
       if (nbad)
 	MSTK_Report(funcname, "Could not fix face dirs of some regions",
 		    MSTK_FATAL);
@@ -1388,6 +1379,16 @@ extern "C" {
       }
 
     }  /* ndim == 3 */
+
+#ifdef MSTK_USE_MARKERS
+    MRegion_ptr mreg;
+    int ridx = 0;
+    while ((mreg = MESH_Next_Region(mesh, &ridx)))
+      MEnt_Unmark(mreg, reliable_rfdirs);
+    MSTK_FreeMarker(reliable_rfdirs);
+#else
+    MAttrib_Delete(dirflagatt);
+#endif
   
 
 
-- 
2.43.0


From 056709628b2b60be489c3f7c140fd7db708ccf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 34/75] fix: adjacency records of reduced edges, face
 directions of F4 regions and implied entity lists were not released

---
 src/base/MEdge_R1.c   | 2 +-
 src/base/MEdge_R2.c   | 6 ++++--
 src/base/MEdge_R4.c   | 6 ++++--
 src/base/MRegion_F4.c | 4 +++-
 src/base/Mesh.c       | 4 ++--
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/base/MEdge_R1.c b/src/base/MEdge_R1.c
index 774edab..5027987 100644
--- a/src/base/MEdge_R1.c
+++ b/src/base/MEdge_R1.c
@@ -39,7 +39,7 @@ extern "C" {
   }
 
   void ME_Destroy_For_MESH_Delete_R1(MEdge_ptr e) {
-    return;
+    if (e->adj) free(e->adj);
   }
 
   int ME_Num_Faces_R1(MEdge_ptr e) {
diff --git a/src/base/MEdge_R2.c b/src/base/MEdge_R2.c
index 83e67af..c610335 100644
--- a/src/base/MEdge_R2.c
+++ b/src/base/MEdge_R2.c
@@ -26,11 +26,13 @@ extern "C" {
   }
 
   void ME_Delete_R2(MEdge_ptr e, int keep) {
-    return;
+    if (!keep) {
+      if (e->adj) free(e->adj);
+    }
   }
 
   void ME_Destroy_For_MESH_Delete_R2(MEdge_ptr e) {
-    return;
+    if (e->adj) free(e->adj);
   }
 
   int ME_Num_Faces_R2(MEdge_ptr e) {
diff --git a/src/base/MEdge_R4.c b/src/base/MEdge_R4.c
index 87ca03e..2e659f8 100644
--- a/src/base/MEdge_R4.c
+++ b/src/base/MEdge_R4.c
@@ -26,11 +26,13 @@ extern "C" {
   }
 
   void ME_Delete_R4(MEdge_ptr e, int keep) {
-    return;
+    if (!keep) {
+      if (e->adj) free(e->adj);
+    }
  }
 
   void ME_Destroy_For_MESH_Delete_R4(MEdge_ptr e) {
-    return;
+    if (e->adj) free(e->adj);
  }
 
   int ME_Num_Faces_R4(MEdge_ptr e) {
diff --git a/src/base/MRegion_F4.c b/src/base/MRegion_F4.c
index 7e16fd5..ad4ad72 100644
--- a/src/base/MRegion_F4.c
+++ b/src/base/MRegion_F4.c
@@ -48,8 +48,10 @@ extern "C" {
 
     if (!keep) {
       if (adj) {
-	if (adj->rfaces)
+	if (adj->rfaces) {
+	  free(adj->fdirs);
 	  List_Delete(adj->rfaces);
+	}
 	free(adj);
       }
     }
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 2280cd6..5127863 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -470,7 +470,7 @@ void MESH_FillHash_Edges(Mesh_ptr mesh) {
     redges = MR_Edges(region);
     List_Delete(redges);
   }
-  if (mesh->medge) free(mesh->medge);
+  if (mesh->medge) List_Delete(mesh->medge);
   mesh->medge = Hash_Entries(mesh->hedge);
   mesh->ne = List_Num_Entries(mesh->medge);
   for (i = 0; i < mesh->ne; i++) {
@@ -497,7 +497,7 @@ void MESH_FillHash_Faces(Mesh_ptr mesh) {
     rfaces = MR_Faces(region);
     List_Delete(rfaces);
   }
-  if (mesh->mface) free(mesh->mface);
+  if (mesh->mface) List_Delete(mesh->mface);
   mesh->mface = Hash_Entries(mesh->hface);
   mesh->nf = List_Num_Entries(mesh->mface);
   for (i = 0; i < mesh->nf; i++) {
-- 
2.43.0


From db181e567556fd4245b7e6605bdfaeb8d347ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 35/75] fix: MR_Set_Vertices (R1, R2) stored the face templates
 of a region one place off and without their number

---
 src/base/MR_Vertex_Funcs_R1.c | 9 +++++----
 src/base/MR_Vertex_Funcs_R2.c | 9 +++++----
 src/base/MRegion_R1.c         | 4 ++--
 src/base/MRegion_R2.c         | 4 ++--
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/base/MR_Vertex_Funcs_R1.c b/src/base/MR_Vertex_Funcs_R1.c
index cb43e88..23905a0 100644
--- a/src/base/MR_Vertex_Funcs_R1.c
+++ b/src/base/MR_Vertex_Funcs_R1.c
@@ -89,13 +89,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -118,7 +119,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MR_Vertex_Funcs_R2.c b/src/base/MR_Vertex_Funcs_R2.c
index 220098e..b928985 100644
--- a/src/base/MR_Vertex_Funcs_R2.c
+++ b/src/base/MR_Vertex_Funcs_R2.c
@@ -88,13 +88,14 @@ extern "C" {
     if (nf && rfvtemplate) {
       adj->fvtemplate = (int **) malloc((nf+1)*sizeof(int *));
       adj->fvtemplate[0] = (int *) malloc(1*sizeof(int));
+      adj->fvtemplate[0][0] = nf;
       for (i = 0; i < nf; i++) {
 	int j, nfv;
 	nfv = rfvtemplate[i][0];
-	adj->fvtemplate[i] = (int *) malloc((nfv+1)*sizeof(int));
-	adj->fvtemplate[i][0] = nfv;
+	adj->fvtemplate[i+1] = (int *) malloc((nfv+1)*sizeof(int));
+	adj->fvtemplate[i+1][0] = nfv;
 	for (j = 0; j < nfv; j++)
-	  adj->fvtemplate[i][j+1] = rfvtemplate[i][j+1];
+	  adj->fvtemplate[i+1][j+1] = rfvtemplate[i][j+1];
       }
 
       switch (nf) {
@@ -117,7 +118,7 @@ extern "C" {
         for (i = 0; i < nf; i++)
           if (rfvtemplate[i][0] == 3)
             ntris++;
-          else if (rfvtemplate[i][1] == 4)
+          else if (rfvtemplate[i][0] == 4)
             nquads++;
 
         if (nquads == 3 && ntris == 2)
diff --git a/src/base/MRegion_R1.c b/src/base/MRegion_R1.c
index f132dae..b0d1068 100644
--- a/src/base/MRegion_R1.c
+++ b/src/base/MRegion_R1.c
@@ -49,7 +49,7 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
@@ -78,7 +78,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
diff --git a/src/base/MRegion_R2.c b/src/base/MRegion_R2.c
index b210bb9..f5c4bd4 100644
--- a/src/base/MRegion_R2.c
+++ b/src/base/MRegion_R2.c
@@ -55,7 +55,7 @@ extern "C" {
 	  List_Delete(adj->rvertices);
 	if (adj->fvtemplate) {
 	  int nf = adj->fvtemplate[0][0], i;
-	  for (i = 0; i < nf; i++)
+	  for (i = 0; i <= nf; i++)
 	    free(adj->fvtemplate[i]);
 	  free(adj->fvtemplate);
 	}
@@ -95,7 +95,7 @@ extern "C" {
 	List_Delete(adj->rvertices);
       if (adj->fvtemplate) {
 	int nf = adj->fvtemplate[0][0], i;
-	for (i = 0; i < nf; i++)
+	for (i = 0; i <= nf; i++)
 	  free(adj->fvtemplate[i]);
 	free(adj->fvtemplate);
       }
-- 
2.43.0


From f87bdf4c7eaffddceac76f856d382aadd1c34138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 36/75] fix: setting the faces or vertices of a region again,
 or the representation of a mesh, leaked what was there

---
 src/base/MR_Face_Funcs_FNR3R4.c |  4 ++++
 src/base/MR_Vertex_Funcs_R1.c   |  8 ++++++++
 src/base/MR_Vertex_Funcs_R2.c   |  8 ++++++++
 src/base/Mesh.c                 | 12 ++++++++----
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index dc2923d..4f88204 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -77,6 +77,10 @@ extern "C" {
 
     adj = (MRegion_Adj_FN *) r->adj;
     k = 1 + ((int) nf/(8*sizeof(unsigned int)));
+    if (adj->rfaces) {
+      free(adj->fdirs);
+      List_Delete(adj->rfaces);
+    }
     adj->fdirs = (unsigned int *) calloc(k,sizeof(unsigned int));
     adj->rfaces = List_New(nf);
 
diff --git a/src/base/MR_Vertex_Funcs_R1.c b/src/base/MR_Vertex_Funcs_R1.c
index 23905a0..c479408 100644
--- a/src/base/MR_Vertex_Funcs_R1.c
+++ b/src/base/MR_Vertex_Funcs_R1.c
@@ -70,6 +70,14 @@ extern "C" {
     MRegion_Adj_R1 *adj;
 
     adj = (MRegion_Adj_R1 *) r->adj;
+    if (adj->rvertices)
+      List_Delete(adj->rvertices);
+    if (adj->fvtemplate) {
+      for (i = adj->fvtemplate[0][0]; i >= 0; i--)
+	free(adj->fvtemplate[i]);
+      free(adj->fvtemplate);
+      adj->fvtemplate = NULL;
+    }
     adj->rvertices = List_New(nv);
     for (i = 0; i < nv; i++) {
 
diff --git a/src/base/MR_Vertex_Funcs_R2.c b/src/base/MR_Vertex_Funcs_R2.c
index b928985..d7f78b2 100644
--- a/src/base/MR_Vertex_Funcs_R2.c
+++ b/src/base/MR_Vertex_Funcs_R2.c
@@ -69,6 +69,14 @@ extern "C" {
     int i;
     MRegion_Adj_R2 *adj = (MRegion_Adj_R2 *) r->adj;
 
+    if (adj->rvertices)
+      List_Delete(adj->rvertices);
+    if (adj->fvtemplate) {
+      for (i = adj->fvtemplate[0][0]; i >= 0; i--)
+	free(adj->fvtemplate[i]);
+      free(adj->fvtemplate);
+      adj->fvtemplate = NULL;
+    }
     adj->rvertices = List_New(nv);
     for (i = 0; i < nv; i++) {
 
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 5127863..3a6a0f4 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -233,16 +233,20 @@ int MESH_SetRepType(Mesh_ptr mesh, RepType type) {
   if (mesh->reptype != type) {
     mesh->reptype = type;
 
-    if (type >= R1 && type <= R4) 
-      mesh->hedge = Hash_New(0, 1);
+    if (type >= R1 && type <= R4) {
+      if (!mesh->hedge)
+	mesh->hedge = Hash_New(0, 1);
+    }
     else {
       if (mesh->hedge)
 	Hash_Delete(mesh->hedge);
       mesh->hedge = (Hash_ptr) NULL;
     }
  
-    if (type >= R1 && type <= R2) 
-      mesh->hface = Hash_New(0, 1);
+    if (type >= R1 && type <= R2) {
+      if (!mesh->hface)
+	mesh->hface = Hash_New(0, 1);
+    }
     else {
       if (mesh->hface)
 	Hash_Delete(mesh->hface);
-- 
2.43.0


From 110fdc2ad08a380e005ae5945f6ffa12a86b4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 37/75] fix: ME_Destroy_For_MESH_Delete did nothing for reduced
 edges; MF_Delete (R1, R2) left the released record on a kept face

---
 include/MEdge_jmp.h | 8 ++++++--
 src/base/MFace_R1.c | 1 +
 src/base/MFace_R2.c | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/MEdge_jmp.h b/include/MEdge_jmp.h
index 143f14b..44fa71d 100644
--- a/include/MEdge_jmp.h
+++ b/include/MEdge_jmp.h
@@ -42,9 +42,13 @@ extern "C" {
 
   void ME_Destroy_For_MESH_Delete_F1(MEdge_ptr e);
   void ME_Destroy_For_MESH_Delete_F4(MEdge_ptr e);
+  void ME_Destroy_For_MESH_Delete_R4(MEdge_ptr e);
+  void ME_Destroy_For_MESH_Delete_R2(MEdge_ptr e);
+  void ME_Destroy_For_MESH_Delete_R1(MEdge_ptr e);
   static void (*ME_Destroy_For_MESH_Delete_jmp[MSTK_MAXREP])(MEdge_ptr e) = 
-  {ME_Destroy_For_MESH_Delete_F1, ME_Destroy_For_MESH_Delete_F4, ME_Dummy1, 
-   ME_Dummy1, ME_Dummy1};
+  {ME_Destroy_For_MESH_Delete_F1, ME_Destroy_For_MESH_Delete_F4,
+   ME_Destroy_For_MESH_Delete_R1, ME_Destroy_For_MESH_Delete_R2,
+   ME_Destroy_For_MESH_Delete_R4};
 
   int ME_Num_Faces_F1(MEdge_ptr e);
   int ME_Num_Faces_F4(MEdge_ptr e);
diff --git a/src/base/MFace_R1.c b/src/base/MFace_R1.c
index 5c1b2ea..6095d2c 100644
--- a/src/base/MFace_R1.c
+++ b/src/base/MFace_R1.c
@@ -35,6 +35,7 @@ extern "C" {
     if (adj) {
       if (adj->fvertices) List_Delete(adj->fvertices);
       free(adj);
+      f->adj = NULL;
     }
 
     if (!keep) {
diff --git a/src/base/MFace_R2.c b/src/base/MFace_R2.c
index c67a668..638fbf6 100644
--- a/src/base/MFace_R2.c
+++ b/src/base/MFace_R2.c
@@ -35,6 +35,7 @@ extern "C" {
     if (adj) {
       if (adj->fvertices) List_Delete(adj->fvertices);
       free(adj);
+      f->adj = NULL;
     }
 
     if (keep) 
-- 
2.43.0


From aeeca21be80efd9d9383801d7876ae194969bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 38/75] fix: isRegFile returned no value and is not used

---
 src/io/MESH_ImportFromFLAGX3D.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/io/MESH_ImportFromFLAGX3D.c b/src/io/MESH_ImportFromFLAGX3D.c
index e1a3300..2ae0227 100644
--- a/src/io/MESH_ImportFromFLAGX3D.c
+++ b/src/io/MESH_ImportFromFLAGX3D.c
@@ -47,10 +47,6 @@ extern "C" {
     string[lnew] = '\0';
   }
 
-  int isRegFile(const struct dirent *item) {
-    if (!item) return 0;
-  }
-
   int getRegFileNames(const char *x3dfilename_in, int numprocs, int rank, char (**regFileNames)[256], char (**regNames)[256]) {
 
     char x3dfilename[256];
-- 
2.43.0


From 56b342ccf6c122130e4778edbde9067afe125252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 39/75] fix: List_RemSorted removed the wrong entry, or
 searched for ever, when the entry is not where its number says

---
 src/util/List.c | 118 ++++++++++++------------------------------------
 1 file changed, 29 insertions(+), 89 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 32a2412..75b8f5b 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -711,109 +711,49 @@ extern "C" {
 
 
   int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)) {
-    int imin, imax, imid, idmin, idmax, idmid, done, fnd, fnd1, imid1;
-    int nent, p, nrem, rem1, ntot, i, id;
+    int imin, imax, imid, i, id;
+    int nent, p, nrem, rem1, ntot;
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
     ntot = nent + nrem;
 
-    imin = 0; imax = ntot-1;
-    if (!(l->entry[imin])) {
+    /* Find the first valid entry whose integer value is not less than
+       that of the given entry. It lies in [imin,imax) or at imax */
 
-      /* Search for the first valid entry */      
-      fnd1 = 0;
-      while (!fnd1 && imin <= imax)
-	if (l->entry[++imin]) fnd1 = 1;
-      if (!fnd1) 
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-
-    }
+    id = (*entry2int)(entry);
 
-    if (!(l->entry[imax])) {
+    imin = 0; imax = ntot;
+    while (imin < imax) {
+      imid = imin + (imax-imin)/2;
 
-      /* Search for the the last valid entry */
-      fnd1 = 0;
-      while (!fnd1 && imax >= imin)
-	if (l->entry[--imax]) fnd1 = 1;
-      if (!fnd1)
-	MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
+      /* Next valid entry */
+      i = imid;
+      while (i < imax && !(l->entry[i]))
+	i++;
 
+      if (i < imax && (*entry2int)(l->entry[i]) < id)
+	imin = i+1;
+      else
+	imax = imid;
     }
-      
-    idmin = (*entry2int)(l->entry[imin]);
-    idmax = (*entry2int)(l->entry[imax]);
 
-    done = 0;
-    i = 0;
-    id = (*entry2int)(entry);
-    while (!done) { 
-      imid = (int)(0.5+(imin+imax)/2.0);
-
-      if (!(l->entry[imid])) {
-
-	/* Search for next valid entry */
-	fnd1 = 0;
-	imid1 = imid;
-	while (!fnd1 && imid1 <= imax)
-	  if (l->entry[++imid1]) fnd1 = 1;
-	if (!fnd1)
-	  MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	else
-	  imid = imid1;
-      
-	if (imid1 == imax) {
-	  /* there were no valid entries from imid to imax */
-	  /* Search back from imid to imin */
-	  
-	  fnd1 = 0;
-	  imid1 = imid;
-	  while (!fnd1 && imid1 >= imin)
-	    if (l->entry[--imid1]) fnd1 = 1;
-	  if (!fnd1)
-	    MSTK_Report("List_RemSorted","Cannot find valid entry",MSTK_WARN);
-	  else
-	    imid = imid1;
-	}
-      }
+    while (imin < ntot && !(l->entry[imin]))
+      imin++;
 
-      idmid = (*entry2int)(l->entry[imid]);
-      
-      if (id <= idmid) {
-	imax = imid;
-	idmax = idmid;
-      }
-      else {
-	imin = imid;
-	idmin = idmid;
-      }      
-
-      if (id == idmin) {
-	i = imin;
-	fnd = 1;
-	done = 1;
-      }
-      else if (id == idmax) {
-	i = imax;
-	fnd = 1;
-	done = 1;
-      }
-      else if (imax-imin <= 1) {
-	done = 1;
-      }
-    }
+    /* If it is not there, then the list is not sorted or more than
+       one entry has this integer value */
 
-    if (fnd) {
-      l->entry[i] = (void *) NULL;
-      nent--;
-      nrem++;
-      if (rem1 == -1 || rem1 > i)
-	rem1 = i;
+    if (imin >= ntot || l->entry[imin] != entry)
+      return List_Rem(l,entry);
 
-      pvtList_Set_Pars(l,nent,p,nrem,rem1);
-      return 1;
-    }
+    l->entry[imin] = (void *) NULL;
+    nent--;
+    nrem++;
+    if (rem1 == -1 || rem1 > imin)
+      rem1 = imin;
 
-    return 0;
+    pvtList_Set_Pars(l,nent,p,nrem,rem1);
+    return 1;
   }
 
 
-- 
2.43.0


From dc2c5efa4b6649dcfd1bff400a723adac8f5b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 40/75] fix: tets of a split edge or face got an arbitrary
 model region ID

---
 src/mod/ME_Split_SimplexMesh.c | 1 +
 src/mod/MF_Split_SimplexMesh.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mod/ME_Split_SimplexMesh.c b/src/mod/ME_Split_SimplexMesh.c
index 9b0a5dd..0b1b97c 100644
--- a/src/mod/ME_Split_SimplexMesh.c
+++ b/src/mod/ME_Split_SimplexMesh.c
@@ -35,6 +35,7 @@ MVertex_ptr ME_Split_SimplexMesh(MEdge_ptr esplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(etets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
diff --git a/src/mod/MF_Split_SimplexMesh.c b/src/mod/MF_Split_SimplexMesh.c
index bbb6b97..fc9edb9 100644
--- a/src/mod/MF_Split_SimplexMesh.c
+++ b/src/mod/MF_Split_SimplexMesh.c
@@ -41,6 +41,7 @@ MVertex_ptr MF_Split_SimplexMesh(MFace_ptr fsplit, double *splitxyz) {
   for (i = 0; i < ntets; i++) {
 
     r = List_Entry(ftets,i);
+    rid[i] = MR_GEntID(r);
 
     rfaces = MR_Faces(r);
 
-- 
2.43.0


From dcbd5577f9b4c0f3200e9bdf3db65ee6b46d3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 41/75] fix: an attribute made without a mesh had an arbitrary
 mesh

---
 src/base/MAttrib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MAttrib.c b/src/base/MAttrib.c
index 91075ae..6cf203b 100644
--- a/src/base/MAttrib.c
+++ b/src/base/MAttrib.c
@@ -71,8 +71,8 @@ extern "C" {
       attrib->ncomp = 1;
     else
       attrib->ncomp = ncomponents;
+    attrib->mesh = mesh;
     if(mesh) {
-      attrib->mesh = mesh;
       MESH_Add_Attrib(mesh,attrib);
     }
     va_end(ap);
-- 
2.43.0


From b92fb31ea19c6e58ccbfda8e7d82988b6d15a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 42/75] fix: the type of a new ghost region was not set

---
 src/base/MRegion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MRegion.c b/src/base/MRegion.c
index 69d2871..692ab32 100644
--- a/src/base/MRegion.c
+++ b/src/base/MRegion.c
@@ -392,6 +392,7 @@ extern "C" {
     MEnt_Set_GEntID((MEntity_ptr) r,0);
 
     r->adj = (void *) NULL;
+    r->mrtype = RUNKNOWN;
 
     RTYPE = mesh ? MESH_RepType(mesh) : F1;
     MR_Set_RepType(r,RTYPE);
-- 
2.43.0


From 4d28f9f6182b2335fd187ebf10f7cb88e6b3cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 43/75] fix: MESH_ExportToGMV left out the materials of cells
 that are faces in a mesh that also has regions

---
 src/io/MESH_ExportToGMV.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index c8e9ee6..40a9ff6 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -947,6 +947,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
     }
 
     if (ncells2) {
+      idx = 0;
       while ((face = List_Next_Entry(flist,&idx))) {
         int fmarked;
 #ifdef MSTK_USE_MARKERS
-- 
2.43.0


From 912075a438073f90dfb048d91ef3f60c8649011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 44/75] fix: edges were left out of the side sets that
 MESH_ExportToExodusII makes, one for each set in the mesh

---
 src/io/MESH_ExportToExodusII.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/MESH_ExportToExodusII.c b/src/io/MESH_ExportToExodusII.c
index 4b08462..53434b9 100644
--- a/src/io/MESH_ExportToExodusII.c
+++ b/src/io/MESH_ExportToExodusII.c
@@ -2278,6 +2278,7 @@ extern "C" {
         /* create sidesets from sets of edges classified on the same
            geometric model edge */
 
+        idx = 0;
         while ((me = MESH_Next_Edge(mesh,&idx))) {
           if (ME_GEntDim(me) != 1) continue;
           
-- 
2.43.0


From ca5d22d0fa84dff9cd47db0bf075111ac4d4da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 45/75] fix: looking up a face or region by global ID checked
 whether the vertices can be searched

---
 src/base/Mesh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 3a6a0f4..ec3da9e 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1529,7 +1529,7 @@ MFace_ptr MESH_FaceFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MFace_ptr mf;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->gid_sorted_mflist)
     MSTK_Report("MESH_FaceFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
@@ -1553,7 +1553,7 @@ MRegion_ptr MESH_RegionFromGlobalID(Mesh_ptr mesh, int global_id) {
   int idx;
   MRegion_ptr mr;
 
-  if (!mesh->gid_sorted_mvlist)
+  if (!mesh->gid_sorted_mrlist)
     MSTK_Report("MESH_RegionFromGlobalID",
                 "Call MESH_Enable_GlobalIDSearch first; Since this uses extra memory, call MESH_Disable_GlobalIDSearch when such searches are done",
                 MSTK_FATAL);
-- 
2.43.0


From 1339fb0c73bae18bd7dcb4677f931e094f55f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 46/75] fix: after a ghost entity was deleted, searching by
 local ID went through lists with gaps

---
 src/base/Mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index ec3da9e..1fc65da 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -2167,6 +2167,7 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
     MSTK_Report("MESH_Rem_GhostVertex","Vertex not found in ghost vertex list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
@@ -2204,6 +2205,7 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
     MSTK_Report("MESH_Rem_GhostEdge","Edge not found in ghost edge list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
@@ -2241,6 +2243,7 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
     MSTK_Report("MESH_Rem_GhostFace","Face not found in ghost list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
@@ -2277,6 +2280,7 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
     MSTK_Report("MESH_Rem_GhostRegion","Region not found in ghost region list",MSTK_FATAL);
 
   MESH_Mark_ParallelAdj_Stale(mesh);
+  MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
 
 
-- 
2.43.0


From 2f2029b03a69f9499e15e1a335bdd3929a2f3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 47/75] fix: an entity put back into a mesh with an ID it had
 was not found when searching by local ID

---
 src/base/Mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 1fc65da..137fc8e 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -857,6 +857,8 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
     (mesh->max_vid)++;
     MV_Set_ID(v,mesh->max_vid);
   }
+  else /* not necessarily in ascending order of IDs any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }
 
 void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
@@ -873,6 +875,8 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
   }
+  else /* not necessarily in ascending order of IDs any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
@@ -897,6 +901,8 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
     (mesh->max_fid)++;
     MF_Set_ID(f,mesh->max_fid);
   }
+  else /* not necessarily in ascending order of IDs any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
@@ -910,6 +916,8 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
     (mesh->max_rid)++;
     MR_Set_ID(r,mesh->max_rid);
   }
+  else /* not necessarily in ascending order of IDs any more */
+    MESH_Flag_EntLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
-- 
2.43.0


From 3cb5ddd846726cde986d699c200ffa6e7a2baabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 48/75] fix: searching by global ID used released entities, or
 ran past the end of the list, after entities were deleted or added

---
 include/MSTK_private.h |  1 +
 src/base/MEntity.c     |  2 ++
 src/base/Mesh.c        | 48 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/include/MSTK_private.h b/include/MSTK_private.h
index 4cc3b9c..a932a4e 100644
--- a/include/MSTK_private.h
+++ b/include/MSTK_private.h
@@ -485,6 +485,7 @@ typedef enum MDelType {MDELREGION=-40, MDELFACE=-30, MDELEDGE=-20, MDELVERTEX=-1
 
   /*  sort global ID lists */
   void MESH_Sort_GlobalIDSearch_Lists(Mesh_ptr mesh);
+  void MESH_Flag_GlobalIDLists_As_Unsorted(Mesh_ptr mesh);
 
 #endif /* MSTK_HAVE_MPI */  
 
diff --git a/src/base/MEntity.c b/src/base/MEntity.c
index 94c7d90..d6cf9db 100644
--- a/src/base/MEntity.c
+++ b/src/base/MEntity.c
@@ -765,6 +765,8 @@ extern "C" {
 
   void  MEnt_Set_GlobalID(MEntity_ptr ent, int globalid) {
     ent->entdat.globalid = globalid;
+    if (ent->entdat.mesh)
+      MESH_Flag_GlobalIDLists_As_Unsorted(ent->entdat.mesh);
   }
 
   /*
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index 137fc8e..e93f82c 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -852,6 +852,9 @@ void MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
 
   mesh->mvertex = List_Add(mesh->mvertex, (void *) v);
   mesh->nv = List_Num_Entries(mesh->mvertex);
+#ifdef MSTK_HAVE_MPI
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
+#endif
 
   if (MV_ID(v) == 0) { /* New Vertex */
     (mesh->max_vid)++;
@@ -871,6 +874,9 @@ void MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e){
 
   mesh->medge = List_Add(mesh->medge, (void *) e);
   mesh->ne = List_Num_Entries(mesh->medge);
+#ifdef MSTK_HAVE_MPI
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
+#endif
   if (ME_ID(e) == 0) { /* New edge */
     (mesh->max_eid)++;
     ME_Set_ID(e,mesh->max_eid);
@@ -896,6 +902,9 @@ void MESH_Add_Face(Mesh_ptr mesh, MFace_ptr f){
   
   mesh->mface = List_Add(mesh->mface, (void *) f);
   mesh->nf = List_Num_Entries(mesh->mface);
+#ifdef MSTK_HAVE_MPI
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
+#endif
 
   if (MF_ID(f) == 0) { /* New face */
     (mesh->max_fid)++;
@@ -911,6 +920,9 @@ void MESH_Add_Region(Mesh_ptr mesh, MRegion_ptr r){
 
   mesh->mregion = List_Add(mesh->mregion, (void *) r);
   mesh->nr = List_Num_Entries(mesh->mregion);
+#ifdef MSTK_HAVE_MPI
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
+#endif
 
   if (MR_ID(r) == 0) { /* New region */
     (mesh->max_rid)++;
@@ -963,6 +975,7 @@ void MESH_Rem_Vertex(Mesh_ptr mesh, MVertex_ptr v) {
       MSTK_Report("MESH_Rem_Vertex","Vertex not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
   }
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 #endif
 
   MESH_Flag_EntLists_As_Unsorted(mesh);
@@ -1012,6 +1025,7 @@ void MESH_Rem_Edge(Mesh_ptr mesh, MEdge_ptr e) {
       MSTK_Report("MESH_Rem_Edge","Edge not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
   }
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 #endif
 
   MESH_Flag_EntLists_As_Unsorted(mesh);
@@ -1062,6 +1076,7 @@ void MESH_Rem_Face(Mesh_ptr mesh, MFace_ptr f){
       MSTK_Report("MESH_Rem_Face","Face not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
   }
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 #endif
 
   MESH_Flag_EntLists_As_Unsorted(mesh);
@@ -1111,6 +1126,7 @@ void MESH_Rem_Region(Mesh_ptr mesh, MRegion_ptr r){
       MSTK_Report("MESH_Rem_Region","Region not found in overlap list",MSTK_FATAL);
     MESH_Mark_ParallelAdj_Stale(mesh);
   }
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 #endif
 
   MESH_Flag_EntLists_As_Unsorted(mesh);
@@ -1436,8 +1452,36 @@ void MESH_Enable_GlobalIDSearch(Mesh_ptr mesh) {
   MESH_Sort_GlobalIDSearch_Lists(mesh);
 }
 
+/* Entities were added or removed, or their global IDs changed */
+
+void MESH_Flag_GlobalIDLists_As_Unsorted(Mesh_ptr mesh) {
+  mesh->gidlists_sorted = 0;
+}
+
 void MESH_Sort_GlobalIDSearch_Lists(Mesh_ptr mesh) {
 
+  /* Take the current entities of the mesh if they are not the ones
+     that were sorted the last time */
+
+  if (!mesh->gidlists_sorted) {
+    if (mesh->gid_sorted_mvlist) {
+      List_Delete(mesh->gid_sorted_mvlist);
+      mesh->gid_sorted_mvlist = List_Copy(mesh->mvertex);
+    }
+    if (mesh->gid_sorted_melist) {
+      List_Delete(mesh->gid_sorted_melist);
+      mesh->gid_sorted_melist = List_Copy(mesh->medge);
+    }
+    if (mesh->gid_sorted_mflist) {
+      List_Delete(mesh->gid_sorted_mflist);
+      mesh->gid_sorted_mflist = List_Copy(mesh->mface);
+    }
+    if (mesh->gid_sorted_mrlist) {
+      List_Delete(mesh->gid_sorted_mrlist);
+      mesh->gid_sorted_mrlist = List_Copy(mesh->mregion);
+    }
+  }
+
   if (mesh->nv && mesh->gid_sorted_mvlist) {
     List_Compress(mesh->gid_sorted_mvlist);  // can't sort list with gaps
     List_Sort(mesh->gid_sorted_mvlist,mesh->nv,sizeof(MVertex_ptr),compareGlobalID);
@@ -2176,6 +2220,7 @@ void MESH_Rem_GhostVertex(Mesh_ptr mesh, MVertex_ptr v) {
 
   MESH_Mark_ParallelAdj_Stale(mesh);
   MESH_Flag_EntLists_As_Unsorted(mesh);
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
@@ -2214,6 +2259,7 @@ void MESH_Rem_GhostEdge(Mesh_ptr mesh, MEdge_ptr e) {
 
   MESH_Mark_ParallelAdj_Stale(mesh);
   MESH_Flag_EntLists_As_Unsorted(mesh);
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
@@ -2252,6 +2298,7 @@ void MESH_Rem_GhostFace(Mesh_ptr mesh, MFace_ptr f){
 
   MESH_Mark_ParallelAdj_Stale(mesh);
   MESH_Flag_EntLists_As_Unsorted(mesh);
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 }    
      
 void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
@@ -2289,6 +2336,7 @@ void MESH_Rem_GhostRegion(Mesh_ptr mesh, MRegion_ptr r){
 
   MESH_Mark_ParallelAdj_Stale(mesh);
   MESH_Flag_EntLists_As_Unsorted(mesh);
+  MESH_Flag_GlobalIDLists_As_Unsorted(mesh);
 }    
 
 
-- 
2.43.0


From 72bfd2f6763c715d1759f11b55bc7a1714205845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 49/75] fix: a deleted face of a surface mesh in representation
 R1 stayed in the mesh's list of faces

---
 src/base/MFace_R1.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/MFace_R1.c b/src/base/MFace_R1.c
index 6095d2c..56066ed 100644
--- a/src/base/MFace_R1.c
+++ b/src/base/MFace_R1.c
@@ -38,7 +38,9 @@ extern "C" {
       f->adj = NULL;
     }
 
-    if (!keep) {
+    /* Faces implied by regions are not in the list of faces of the mesh;
+       explicit ones must still be taken out of it (by MF_Delete) */
+    if (!keep && MEnt_IsVolatile((MEntity_ptr) f)) {
       MEnt_Set_DelFlag((MEntity_ptr) f);
     }
     if (keep) 
-- 
2.43.0


From 3488b4ee73bc7cea5e905bd64a2a770e04501daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 50/75] fix: entities given an ID above the ones in use were
 not found by ID, and new ones got the same ID (e.g. in copies of meshes)

---
 include/MSTK_private.h |  1 +
 src/base/MEntity.c     | 14 ++++++++------
 src/base/Mesh.c        | 21 +++++++++++++++++++++
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/MSTK_private.h b/include/MSTK_private.h
index a932a4e..8d60a52 100644
--- a/include/MSTK_private.h
+++ b/include/MSTK_private.h
@@ -42,6 +42,7 @@ typedef enum MDelType {MDELREGION=-40, MDELFACE=-30, MDELEDGE=-20, MDELVERTEX=-1
 /* THIS FILE HAS ADDITIONAL FUNCTIONS THAT THE NORMAL USER NEED NOT SEE */
 
   void       MESH_Reset_Cached_MaxIDs(Mesh_ptr mesh);
+  void       MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id);
 
   void       MESH_Add_Vertex(Mesh_ptr mesh, MVertex_ptr v);
   void       MESH_Add_Edge(Mesh_ptr mesh, MEdge_ptr e);
diff --git a/src/base/MEntity.c b/src/base/MEntity.c
index d6cf9db..8e6a7c1 100644
--- a/src/base/MEntity.c
+++ b/src/base/MEntity.c
@@ -123,15 +123,17 @@ extern "C" {
       MSTK_Report("MEnt_SetID","ID too large",MSTK_WARN);
 #endif
 
+    Mesh_ptr mesh = ent->entdat.mesh;
     int orig_id = ent->entdat.id;
     ent->entdat.id = id;
 
-    /* if original ID was not zero, we are modifying the ID of
-     * entities after the fact and the entity lists will no longer
-     * have entries with ascending IDs */
-    if (orig_id) {
-      Mesh_ptr mesh = ent->entdat.mesh;
-      if (mesh)
+    if (mesh) {
+      MESH_Update_Cached_MaxID(mesh, ent->entdat.dim, id);
+
+      /* if original ID was not zero, we are modifying the ID of
+       * entities after the fact and the entity lists will no longer
+       * have entries with ascending IDs */
+      if (orig_id)
         MESH_Flag_EntLists_As_Unsorted(mesh);
     }
   }
diff --git a/src/base/Mesh.c b/src/base/Mesh.c
index e93f82c..049e4dd 100644
--- a/src/base/Mesh.c
+++ b/src/base/Mesh.c
@@ -1168,6 +1168,27 @@ void  MESH_Reset_Cached_MaxIDs(Mesh_ptr mesh) {
   mesh->max_rid = maxid;
 }
 
+/* An entity of the mesh got this ID */
+
+void  MESH_Update_Cached_MaxID(Mesh_ptr mesh, MType mtype, int id) {
+  switch (mtype) {
+  case MVERTEX:
+    if (id > mesh->max_vid) mesh->max_vid = id;
+    break;
+  case MEDGE:
+    if (id > mesh->max_eid) mesh->max_eid = id;
+    break;
+  case MFACE:
+    if (id > mesh->max_fid) mesh->max_fid = id;
+    break;
+  case MREGION:
+    if (id > mesh->max_rid) mesh->max_rid = id;
+    break;
+  default:
+    break;
+  }
+}
+
 
 
 
-- 
2.43.0


From 4f708b6aecd5aac277853adb50e5bc7d9dd07f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 51/75] fix: a ghost or overlap entity that was deleted and
 restored was not put back into all lists it had been in

---
 src/base/MEdge.c   | 5 +++--
 src/base/MFace.c   | 5 +++--
 src/base/MRegion.c | 5 +++--
 src/base/MVertex.c | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/base/MEdge.c b/src/base/MEdge.c
index b61f41c..c4334b1 100644
--- a/src/base/MEdge.c
+++ b/src/base/MEdge.c
@@ -85,9 +85,10 @@ extern "C" {
 #ifdef MSTK_HAVE_MPI
     if (ME_PType(e) == PGHOST)
       MESH_Add_GhostEdge(mesh,e);
-    else
+    else if (ME_PType(e) == POVERLAP)
+      MESH_Add_OverlapEdge(mesh,e);
 #endif
-      MESH_Add_Edge(mesh,e);
+    MESH_Add_Edge(mesh,e);
 
     (*ME_Restore_jmp[RTYPE])(e);
   }
diff --git a/src/base/MFace.c b/src/base/MFace.c
index 757c30e..5e64a3a 100644
--- a/src/base/MFace.c
+++ b/src/base/MFace.c
@@ -84,9 +84,10 @@ extern "C" {
 #ifdef MSTK_HAVE_MPI
     if (MF_PType(f) == PGHOST)
       MESH_Add_GhostFace(mesh,f);
-    else
+    else if (MF_PType(f) == POVERLAP)
+      MESH_Add_OverlapFace(mesh,f);
 #endif
-      MESH_Add_Face(mesh,f);
+    MESH_Add_Face(mesh,f);
 
     (*MF_Restore_jmp[RTYPE])(f);
   }
diff --git a/src/base/MRegion.c b/src/base/MRegion.c
index 692ab32..0baaf52 100644
--- a/src/base/MRegion.c
+++ b/src/base/MRegion.c
@@ -88,9 +88,10 @@ extern "C" {
 #ifdef MSTK_HAVE_MPI
     if (MR_PType(r) == PGHOST)
       MESH_Add_GhostRegion(mesh,r);
-    else
+    else if (MR_PType(r) == POVERLAP)
+      MESH_Add_OverlapRegion(mesh,r);
 #endif
-      MESH_Add_Region(mesh,r);
+    MESH_Add_Region(mesh,r);
 
     (*MR_Restore_jmp[RTYPE])(r);
   }
diff --git a/src/base/MVertex.c b/src/base/MVertex.c
index 5de6bd2..a1f6719 100644
--- a/src/base/MVertex.c
+++ b/src/base/MVertex.c
@@ -86,9 +86,10 @@ extern "C" {
 #ifdef MSTK_HAVE_MPI
     if (ME_PType(v) == PGHOST)
       MESH_Add_GhostVertex(mesh,v);
-    else
+    else if (ME_PType(v) == POVERLAP)
+      MESH_Add_OverlapVertex(mesh,v);
 #endif
-      MESH_Add_Vertex(mesh,v);
+    MESH_Add_Vertex(mesh,v);
 
     (*MV_Restore_jmp[RTYPE])(v);
   }
-- 
2.43.0


From 7ee25071e282f6881cc2bfaeb54caccdcb6e34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 52/75] fix: List_Cat records where the first hole of the
 joined list is

---
 src/util/List.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/List.c b/src/util/List.c
index 75b8f5b..d4c1048 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -908,10 +908,10 @@ extern "C" {
     }
 
     memcpy(dest->entry+ntot_d,src->entry,ntot_s*sizeof(void *));
+    if (!nrem_d && nrem_s)
+      rem1_d = ntot_d + rem1_s; /* holes of src moved by the length of dest */
     nent_d += nent_s;
     nrem_d += nrem_s;
-    if (!nrem_d && nrem_s)
-      rem1_d = rem1_s;
 
     pvtList_Set_Pars(dest,nent_d,p_d,nrem_d,rem1_d);
 
-- 
2.43.0


From a16e6fd46dc21be5de4e3282e46247b16444b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:57 +0000
Subject: [PATCH 53/75] fix: List_Insert inserts before the entry given, not
 before the first other one

---
 src/util/List.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/List.c b/src/util/List.c
index d4c1048..d4da752 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -508,7 +508,7 @@ extern "C" {
       for (ip = 0; ip < ntot; ip++) {
 	entry = l->entry[ip];
 	
-	if (entry != b4entry)
+	if (entry == b4entry)
 	  break;
       }
 
-- 
2.43.0


From ba97d601b323f29ef69c3612d0ed8abeca85dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 54/75] fix: List_Replacei and List_Inserti stay inside the
 list

---
 src/util/List.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/List.c b/src/util/List.c
index d4da752..5397f59 100644
--- a/src/util/List.c
+++ b/src/util/List.c
@@ -420,6 +420,11 @@ extern "C" {
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
 
+    if (i > nent) {
+      MSTK_Report("List_Inserti","Not that many entries in list",MSTK_ERROR);
+      return 0;
+    }
+
     ntot = nent + nrem;
 
     nalloc = (1<<p)-1;
@@ -769,6 +774,9 @@ extern "C" {
 
     pvtList_Get_Pars(l,&nent,&p,&nrem,&rem1);
 
+    if (i >= nent)
+      return 0;
+
     ntot = nent + nrem;
 
     ic = -1; /* (valid entry count)-1 (1st entry may be invalid)*/
-- 
2.43.0


From f04ef79623070a7022df8600f0aab334563d1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 55/75] fix: MESH_CheckTopo reports entities without neighbours
 instead of reading through the missing list

---
 src/hilev/MESH_CheckTopo.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/hilev/MESH_CheckTopo.c b/src/hilev/MESH_CheckTopo.c
index f8a7db3..0632358 100644
--- a/src/hilev/MESH_CheckTopo.c
+++ b/src/hilev/MESH_CheckTopo.c
@@ -126,13 +126,13 @@ extern "C" {
 
 	found = 0;
 	idx2 = 0;
-	while ((vf = List_Next_Entry(vfaces,&idx2))) {
+	while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
 	  if (MF_GEntDim(vf) == 2) {
 	    found = 1;
 	    break;
 	  }
 	}
-        List_Delete(vfaces);
+        if (vfaces) List_Delete(vfaces);
 
 	if (!found) {
 	  sprintf(mesg,"Vertex %-d classified on model face %-d but could not \n find connected face classified on this model face",vid,gvid);
@@ -155,14 +155,14 @@ extern "C" {
 	  efaces = ME_Faces(ecur);
 	  found = 0;
 	  idx3 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx3))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx3))) {
 	    if (ef != fcur && MF_GEntDim(ef) == 2 && MF_GEntID(ef) == gvid) {
 	      fcur = ef;
 	      found = 1;
 	      break;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (!found) {
 	    sprintf(mesg,"Could not find next boundary face connected to vertex %-d",vid);
@@ -201,7 +201,7 @@ extern "C" {
 
         if (done && flipped) {
           List_ptr fregs = MF_Regions(fcur);
-          if (List_Num_Entries(fregs) < 2) {
+          if (!fregs || List_Num_Entries(fregs) < 2) {
             sprintf(mesg,"Inconsistent orientations of boundary faces around vertex %-d",vid);
             MSTK_Report(funcname,mesg,MSTK_WARN);
           }
@@ -263,12 +263,12 @@ extern "C" {
         }
 
 	vedges = MV_Edges(ev);
-	if (!List_Contains(vedges,me)) {
+	if (!vedges || !List_Contains(vedges,me)) {
 	  sprintf(mesg,"Edge %-d sees vertex %-d but not vice versa",eid,vid);
 	  MSTK_Report(funcname,mesg,MSTK_ERROR);
 	  valid = 0;
 	}
-	List_Delete(vedges);
+	if (vedges) List_Delete(vedges);
 
 	if (gedim == 2) {
 	  MFace_ptr ebf[2], fcur, fnxt;
@@ -284,7 +284,7 @@ extern "C" {
 	  nf = 0;
 	  efaces = ME_Faces(me);
 	  idx2 = 0;
-	  while ((ef = List_Next_Entry(efaces,&idx2))) {
+	  while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
 	    fid = MF_ID(ef);
 
 	    if (MF_GEntDim(ef) == 2) {
@@ -301,12 +301,13 @@ extern "C" {
 		ebf[1] = ef;
 	    }
 	  }
-	  List_Delete(efaces);
+	  if (efaces) List_Delete(efaces);
 
 	  if (nf != 2) {
 	    sprintf(mesg,"Boundary edge %-d is not connected to exactly two\n  faces classified on the boundary",eid);
 	    MSTK_Report(funcname,mesg,MSTK_ERROR);
 	    valid = 0;
+	    if (nf < 2) continue;
 	  }
 
 
@@ -328,7 +329,7 @@ extern "C" {
 	    valid = 0;
 	  }
 
-	  nfr = List_Num_Entries(fregs);
+	  nfr = fregs ? List_Num_Entries(fregs) : 0;
 	  for (i = 0; i < nfr; i++) {
 	    rcur = List_Entry(fregs,i);
 	  
@@ -362,14 +363,14 @@ extern "C" {
 	      
 	      fregs1 = MF_Regions(fcur);
 	      idx3 = 0;
-	      while ((fr = List_Next_Entry(fregs1,&idx3))) {
+	      while (fregs1 && (fr = List_Next_Entry(fregs1,&idx3))) {
 		if (fr != rcur) {
 		  rcur = fr;
 		  found = 1;
 		  break;
 		}
 	      }
-	      List_Delete(fregs1);
+	      if (fregs1) List_Delete(fregs1);
 
 	      if (!found) {
 		sprintf(mesg,"Could not find next region around edge %-d",eid);
@@ -406,7 +407,7 @@ extern "C" {
 	      valid = 0;
 	    }
 	  } /* for (i = 0; i < nfr; i++) */
-          List_Delete(fregs);
+          if (fregs) List_Delete(fregs);
 
 	} /* if (geid == 2) */
 
-- 
2.43.0


From 0fe344aaa34073220c7cb7097ad1a911d4eaab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 56/75] fix: MESH_Renumber and MESH_BuildEdgeClassfn cope with
 vertices, edges and faces that have no neighbours

---
 src/hilev/MESH_BuildEdgeClassfn.c |  4 ++--
 src/hilev/MESH_Renumber.c         | 32 +++++++++++++++----------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index 93fb511..a545333 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -87,7 +87,7 @@ extern "C" {
 	geids[ngedges] = geid;
 
 	efaces = ME_Faces(edge);
-	nef = List_Num_Entries(efaces);
+	nef = efaces ? List_Num_Entries(efaces) : 0;
 
 	gefaceids[ngedges] = (int *) malloc((1+nef)*sizeof(int));
         ngef = 0;
@@ -102,7 +102,7 @@ extern "C" {
 
 	ngedges++;
 
-	List_Delete(efaces);
+	if (efaces) List_Delete(efaces);
       }
 
     }
diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 0506982..73414b7 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -127,7 +127,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vfaces = MV_Faces(mv);
           idx2 = 0;
-          while ((vf = List_Next_Entry(vfaces,&idx2))) {
+          while (vfaces && (vf = List_Next_Entry(vfaces,&idx2))) {
             List_ptr fverts = MF_Vertices(vf,1,0);
             idx3 = 0;
             while ((adjv = List_Next_Entry(fverts,&idx3))) {
@@ -150,7 +150,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fverts);
           }
-          List_Delete(vfaces);
+          if (vfaces) List_Delete(vfaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
 #endif
@@ -182,7 +182,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjvlist = List_New(0);
           vregions = MV_Regions(mv);
           idx2 = 0;
-          while ((vr = List_Next_Entry(vregions,&idx2))) {
+          while (vregions && (vr = List_Next_Entry(vregions,&idx2))) {
             List_ptr rverts = MR_Vertices(vr);
             idx3 = 0;
             while ((adjv = List_Next_Entry(rverts,&idx3))) {
@@ -205,7 +205,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rverts);
           }
-          List_Delete(vregions);
+          if (vregions) List_Delete(vregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
 #endif
@@ -339,8 +339,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 	   connected to the starting vertex as the first edge */
 
 	List_ptr vedges = MV_Edges(v0);
-	e0 = List_Entry(vedges,0);
-	List_Delete(vedges);
+	e0 = vedges ? List_Entry(vedges,0) : MESH_Edge(mesh,0);
+	if (vedges) List_Delete(vedges);
       }
       else {
 	/* Find the edge whose mid point is a minimum point */
@@ -381,7 +381,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           efaces = ME_Faces(me);
           idx2 = 0;
-          while ((ef = List_Next_Entry(efaces,&idx2))) {
+          while (efaces && (ef = List_Next_Entry(efaces,&idx2))) {
             List_ptr fedges = MF_Edges(ef,1,0);
             idx3 = 0;
             while ((adje = List_Next_Entry(fedges,&idx3))) {
@@ -404,7 +404,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(fedges);
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
 #endif
@@ -436,7 +436,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjelist = List_New(0);
           eregions = ME_Regions(me);
           idx2 = 0;
-          while ((er = List_Next_Entry(eregions,&idx2))) {
+          while (eregions && (er = List_Next_Entry(eregions,&idx2))) {
             List_ptr redges = MR_Edges(er);
             idx3 = 0;
             while ((adje = List_Next_Entry(redges,&idx3))) {
@@ -459,7 +459,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(redges);
           }
-          List_Delete(eregions);
+          if (eregions) List_Delete(eregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
 #endif
@@ -589,8 +589,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
            connected to the starting vertex as the first edge */
 
         List_ptr vfaces = MV_Faces(v0);
-        f0 = List_Entry(vfaces,0);
-        List_Delete(vfaces);
+        f0 = vfaces ? List_Entry(vfaces,0) : MESH_Face(mesh,0);
+        if (vfaces) List_Delete(vfaces);
       }
       else {
         /* Find the face whose mid point is a minimum point */
@@ -692,7 +692,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           adjflist = List_New(0);
           fregions = MF_Regions(mf);
           idx2 = 0;
-          while ((fr = List_Next_Entry(fregions,&idx2))) {
+          while (fregions && (fr = List_Next_Entry(fregions,&idx2))) {
             List_ptr rfaces = MR_Faces(fr);
             idx3 = 0;
             while ((adjf = List_Next_Entry(rfaces,&idx3))) {
@@ -715,7 +715,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
             }
             List_Delete(rfaces);
           }
-          List_Delete(fregions);
+          if (fregions) List_Delete(fregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
 #endif
@@ -863,8 +863,8 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
              region */
 
           List_ptr vregions = MV_Regions(v0);
-          r0 = List_Entry(vregions,0);
-          List_Delete(vregions);
+          r0 = vregions ? List_Entry(vregions,0) : MESH_Region(mesh,0);
+          if (vregions) List_Delete(vregions);
         }
         else {
           /* Find the region whose center point is a minimum point */
-- 
2.43.0


From 0ec9163e69ab05f3f859287e8e30bcb309dd409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 57/75] fix: ME_Collapse and ME_Swap2D cope with edges that
 bound no face

---
 src/mod/ME_Collapse.c | 16 ++++++++--------
 src/mod/ME_Swap2D.c   |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mod/ME_Collapse.c b/src/mod/ME_Collapse.c
index d5f0277..395217e 100644
--- a/src/mod/ME_Collapse.c
+++ b/src/mod/ME_Collapse.c
@@ -124,8 +124,8 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
     idx1 = 0;
     while ((edge = (MEdge_ptr) List_Next_Entry(vedges,&idx1))) {
       List_ptr efaces = ME_Faces(edge);
-      int nef = List_Num_Entries(efaces);
-      List_Delete(efaces);
+      int nef = efaces ? List_Num_Entries(efaces) : 0;
+      if (efaces) List_Delete(efaces);
       if (nef < 2) {
         vdel_external = 1;
         break;
@@ -397,12 +397,12 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              edge */
           
           efaces = ME_Faces(edge);
-          int nef = List_Num_Entries(efaces);
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
           if (nef == 1) {
             edge_on_boundary = 1;
           } else {
             idx3 = 0;
-            while ((face = List_Next_Entry(efaces,&idx3))) {
+            while (efaces && (face = List_Next_Entry(efaces,&idx3))) {
               List_ptr fregs = MF_Regions(face);
               if (fregs) {
                 int nfr = List_Num_Entries(fregs);
@@ -415,7 +415,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
         edge2_on_boundary = 0;
@@ -429,12 +429,12 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
              boundary of a ghost layer can mimic an external edge */
           
           efaces = ME_Faces(edge2);
-          int nef = List_Num_Entries(efaces);
+          int nef = efaces ? List_Num_Entries(efaces) : 0;
           if (nef == 1) {
             edge2_on_boundary = 1;
           } else {
             idx3 = 0;
-            while ((face = List_Next_Entry(efaces,&idx3))) {
+            while (efaces && (face = List_Next_Entry(efaces,&idx3))) {
               List_ptr fregs = MF_Regions(face);
               if (fregs) {
                 int nfr = List_Num_Entries(fregs);
@@ -447,7 +447,7 @@ MVertex_ptr ME_Collapse(MEdge_ptr e, MVertex_ptr vkeep_in, int topoflag,
               if (edge2_on_boundary) break;
             }
           }
-          List_Delete(efaces);
+          if (efaces) List_Delete(efaces);
         }
     
         if (edge_on_boundary == edge2_on_boundary) {
diff --git a/src/mod/ME_Swap2D.c b/src/mod/ME_Swap2D.c
index a5b1ac7..dec7a7f 100644
--- a/src/mod/ME_Swap2D.c
+++ b/src/mod/ME_Swap2D.c
@@ -33,11 +33,11 @@ int ME_Swap2D(MEdge_ptr eswp, MEdge_ptr *enew, MFace_ptr fnew[2]) {
   v[1] = ME_Vertex(eswp,1);
 
   efaces = ME_Faces(eswp);
-  nf = List_Num_Entries(efaces);
+  nf = efaces ? List_Num_Entries(efaces) : 0;
 
   if (nf != 2) {
     MSTK_Report("ME_Swap2D","Edge must be connected to exactly two faces for 2D swap",MSTK_ERROR);
-    List_Delete(efaces);
+    if (efaces) List_Delete(efaces);
     return 0;
   }
 
-- 
2.43.0


From a22b8f2dec0a5922972aba3b819b866ec205eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 58/75] fix: MSet_Copy and MSets_Union do not leak the list of
 the new set

---
 src/base/MSet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index a699982..383e398 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -136,6 +136,7 @@ extern "C" {
 
     newset = MSet_New(MSet_Mesh(src),MSet_Name(src,name),MSet_EntDim(src));
 
+    List_Delete(newset->entlist);
     newset->entlist = List_Copy(src->entlist);
 
     return newset;
@@ -194,6 +195,7 @@ extern "C" {
     free(newname);
 
     
+    List_Delete(newset->entlist);
     newset->entlist = List_Copy(s1->entlist);
     
 #ifdef MSTK_USE_MARKERS
-- 
2.43.0


From f129e2965e0ba4918442b98c0d8c4e41ae8051ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 59/75] fix: MSet_Rename makes room for the new name

---
 src/base/MSet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index 383e398..50b61b9 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -58,6 +58,7 @@ extern "C" {
   }
 
   void MSet_Rename(MSet_ptr set, char *newname) {
+    set->name = (char *) realloc(set->name,(strlen(newname)+1)*sizeof(char));
     strcpy(set->name,newname);
   }
 
-- 
2.43.0


From ed44cd82b92931234e53e0abb9886a2aeda94739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 60/75] fix: MESH_Copy copies regions of R1 and R2 meshes
 through their vertices

---
 src/base/MESH_Copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MESH_Copy.c b/src/base/MESH_Copy.c
index 21aa2a3..cd82991 100644
--- a/src/base/MESH_Copy.c
+++ b/src/base/MESH_Copy.c
@@ -173,7 +173,7 @@ extern "C" {
     }
 
     
-    if (MESH_RepType(srcmesh) != R1 || MESH_RepType(srcmesh) != R2) { /* Regions --> Faces */
+    if (MESH_RepType(srcmesh) != R1 && MESH_RepType(srcmesh) != R2) { /* Regions --> Faces */
 
       idx = 0;
       while ((mr = MESH_Next_Region(srcmesh,&idx))) {
-- 
2.43.0


From 744e3269414345811be7b600589fcdb28e30e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 61/75] fix: MESH_ImportFromGMV gives line cells both their
 vertices

---
 src/io/MESH_ImportFromGMV.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index c8605de..870e3a2 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -272,7 +272,7 @@ extern "C" {
 	  
 	  me = ME_New(mesh);
 	  for (j = 0; j < 2; j++)
-	    ME_Set_Vertex(me,0,vtx[j]);
+	    ME_Set_Vertex(me,j,vtx[j]);
 
 	  non_vface_cells = 1;
 	}
-- 
2.43.0


From eae2a37bdea9b7c0df0db0edcc8a4bab09531c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 62/75] fix: MESH_WriteToFile: write the edges section even
 without edges, as the reader expects it

---
 src/base/MESH_WriteToFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index 8dedc8b..d1826d7 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -150,7 +150,7 @@ extern "C" {
 
 
 
-  if (reptype <= F4 && ne) {
+  if (reptype <= F4) {
     fprintf(fp,"edges\n");
 
     idx = 0;
-- 
2.43.0


From c083c2282b910a60bba0fae5e85551a7dedddf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 63/75] fix: MESH_WriteToFile: write regions of R2 meshes in
 terms of vertices, as the reader expects

---
 src/base/MESH_WriteToFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index d1826d7..d951945 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -238,7 +238,7 @@ extern "C" {
 
 
   if (nr) {
-    if (reptype <= F4 || reptype >= R2) {
+    if (reptype <= F4 || reptype > R2) {
       fprintf(fp,"regions face\n");
 
       idx = 0;
-- 
2.43.0


From ab5c1d1f346f20a2c542a3307683d5cb0e8298bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 64/75] fix: MESH_WriteToFile: write real attribute values with
 all their digits

---
 src/base/MESH_WriteToFile.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/base/MESH_WriteToFile.c b/src/base/MESH_WriteToFile.c
index d951945..4683711 100644
--- a/src/base/MESH_WriteToFile.c
+++ b/src/base/MESH_WriteToFile.c
@@ -450,12 +450,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -475,12 +475,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -500,12 +500,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -526,12 +526,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -552,12 +552,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -575,12 +575,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -598,12 +598,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
@@ -621,12 +621,12 @@ extern "C" {
 	      fprintf(fp," %-d",ival);
 	      break;
 	    case DOUBLE: 
-	      fprintf(fp," %-lf ",rval);
+	      fprintf(fp," %-.16le ",rval);
 	      break;
 	    case VECTOR: case TENSOR:
 	      rval_arr = (double *) pval;
 	      for (k = 0; k < ncomp; k++)
-		fprintf(fp," %-lf ",rval_arr[k]);
+		fprintf(fp," %-.16le ",rval_arr[k]);
 	      break;
 	    default:
 	      break;
-- 
2.43.0


From 1c22bbf821c0215c7b407ee29c747a55bd583067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 65/75] fix: MESH_InitFromFile: a file of an R2 mesh may end
 after the adjacent regions

---
 src/base/MESH_InitFromFile.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/base/MESH_InitFromFile.c b/src/base/MESH_InitFromFile.c
index 1dd6020..9deda61 100644
--- a/src/base/MESH_InitFromFile.c
+++ b/src/base/MESH_InitFromFile.c
@@ -796,13 +796,8 @@ extern "C" {
   if (processed_adjr) {
     status = fscanf(fp,"%s",temp_str);
     if (status == EOF) {
-      if (mesh->reptype == R2)
-	MSTK_Report("MESH_InitFromFile",
-		    "Premature end of file after reading regions",MSTK_FATAL);
-      else {
-        fclose(fp);
-	return 1;
-      }
+      fclose(fp);
+      return 1;
     }
   }
 
-- 
2.43.0


From 77ab800be8ac5aed5ef10b1b04a407af7768204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 66/75] fix: MR_Replace_Faces moves the direction bits after it
 has taken the face out of the list, so that no other face changes sides

---
 src/base/MR_Face_Funcs_FNR3R4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/MR_Face_Funcs_FNR3R4.c b/src/base/MR_Face_Funcs_FNR3R4.c
index 4f88204..5c4e1be 100644
--- a/src/base/MR_Face_Funcs_FNR3R4.c
+++ b/src/base/MR_Face_Funcs_FNR3R4.c
@@ -720,10 +720,11 @@ extern "C" {
                it from the list (this shifts all the subsequent faces up)
                Similarly shift all the face dirs up */
 
+            List_Remi(adj->rfaces,i);
             for (ii = i; ii < nf-1; ii++)
               if (MR_FaceDir_i(r,ii) != MR_FaceDir_i(r,ii+1))
                 MR_Set_FaceDir_i(r,ii,MR_FaceDir_i(r,ii+1));
-            List_Remi(adj->rfaces,i);
+            nf--;
           }
           
           MF_Rem_Region(f,r);
-- 
2.43.0


From 2b688500e40f949c9b3b5fdc6119a5761fb52f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 67/75] fix: removing an edge from an F4 face moves the
 direction bit of the very next edge, too

---
 src/base/MF_Edge_Funcs_F2F4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index 7024632..fc61a1b 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -170,7 +170,7 @@ extern "C" {
 
     /* Move the remaining bits to the right */
     int k, dir;
-    for (k = eindex+1; k < ne-1; k++) {
+    for (k = eindex; k < ne-1; k++) {
       /* set bit k to 0 */
       adj->edirs = adj->edirs & ~(1UL<<k);
 
-- 
2.43.0


From 9b07c738fb36946ad8863de1bec9ae551b456354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 68/75] fix: replacing edges of a face by two or more fewer
 edges removes the direction bits of the removed edges

---
 src/base/MF_Edge_Funcs_F1F3.c | 20 ++++++++++++--------
 src/base/MF_Edge_Funcs_F2F4.c | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 2ff110e..1d8cfa0 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -203,7 +203,7 @@ extern "C" {
     MFace_Adj_F1F3 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    int j, k, k0, ne, ncom, dir, *olddirs, *newdirs, rev;
 
     adj = (MFace_Adj_F1F3 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -302,14 +302,18 @@ extern "C" {
     else {
       /* Delete the remaining old edges */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
-
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
+      /* Each time, the next edge to be deleted has moved into the
+	 place of the last one (or is the first one of the face if the
+	 last one was at the end of the list). Delete its direction bit
+	 along with it and move the remaining bits to the right */
       
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+      k0 = (i+ncom)%ne;
+      for (j = ncom; j < nold; j++) {
+	if (k0 == ne)
+	  k0 = 0;
+	List_Remi(adj->fedges,k0);
+
+	for (k = k0; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index fc61a1b..bf11d82 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -201,7 +201,7 @@ extern "C" {
     MFace_Adj_F2F4 *adj;
     MEdge_ptr *oldedges, *newedges;
     MVertex_ptr vold_0, vold_1, lastv;
-    int j, k, ne, ncom, dir, *olddirs, *newdirs, rev;
+    int j, k, k0, ne, ncom, dir, *olddirs, *newdirs, rev;
 
     adj = (MFace_Adj_F2F4 *) f->adj;
     ne = List_Num_Entries(adj->fedges);
@@ -300,14 +300,18 @@ extern "C" {
     else {
       /* Delete the remaining old edges */
 
-      for (j = ncom; j < nold; j++)
-	List_Rem(adj->fedges,oldedges[j]);
-
-      /* Delete (nold-ncom) direction bits after the (i+ncom)'th bit and
-	 move the remaining bits to the right */
+      /* Each time, the next edge to be deleted has moved into the
+	 place of the last one (or is the first one of the face if the
+	 last one was at the end of the list). Delete its direction bit
+	 along with it and move the remaining bits to the right */
       
-      for (j = 0; j < nold-ncom; j++) {
-	for (k = (i+ncom+j)%ne; k < ne-1; k++) {
+      k0 = (i+ncom)%ne;
+      for (j = ncom; j < nold; j++) {
+	if (k0 == ne)
+	  k0 = 0;
+	List_Remi(adj->fedges,k0);
+
+	for (k = k0; k < ne-1; k++) {
 	  /* set bit k to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<k);
 
-- 
2.43.0


From 179269a18c2a5023b08478f382011d93b9d6e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 69/75] fix: replacing edges that span the start of a face's
 edge list by more edges puts the new edges in the right place

---
 src/base/MF_Edge_Funcs_F1F3.c | 13 +++++++------
 src/base/MF_Edge_Funcs_F2F4.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/base/MF_Edge_Funcs_F1F3.c b/src/base/MF_Edge_Funcs_F1F3.c
index 1d8cfa0..6adece2 100644
--- a/src/base/MF_Edge_Funcs_F1F3.c
+++ b/src/base/MF_Edge_Funcs_F1F3.c
@@ -270,8 +270,9 @@ extern "C" {
     if (nold < nnu) {
       /* Insert the rest of the nuedges at the right place */
 
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
+      k0 = (i+ncom-1)%ne + 1; /* right after the last replaced edge */
+      for (j = ncom; j < nnu; j++, k0++) {
+	List_Inserti(adj->fedges,newedges[j],k0);
 
       
 	/* Move the direction bits after the (i+ncom)'th bit to the
@@ -279,7 +280,7 @@ extern "C" {
 	 the rest of the inserted edges */
 
 	
-	for (k = ne-1; k >= i+j; k--) {
+	for (k = ne-1; k >= k0; k--) {
 
 	  /* set bit k+1 to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
@@ -291,9 +292,9 @@ extern "C" {
 	  adj->edirs = adj->edirs | (dir<<(k+1));	
 	}
 
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
+	/* set bit k0 according to input */
+	adj->edirs = adj->edirs & ~(1UL<<k0); /* Set bit to 0 */
+	adj->edirs = adj->edirs | (newdirs[j]<<k0); /* set to newdir */
 
 	ne++;
       }
diff --git a/src/base/MF_Edge_Funcs_F2F4.c b/src/base/MF_Edge_Funcs_F2F4.c
index bf11d82..d857a78 100644
--- a/src/base/MF_Edge_Funcs_F2F4.c
+++ b/src/base/MF_Edge_Funcs_F2F4.c
@@ -268,8 +268,9 @@ extern "C" {
     if (nold < nnu) {
       /* Insert the rest of the nuedges at the right place */
 
-      for (j = ncom; j < nnu; j++) {
-	List_Inserti(adj->fedges,newedges[j],i+j);
+      k0 = (i+ncom-1)%ne + 1; /* right after the last replaced edge */
+      for (j = ncom; j < nnu; j++, k0++) {
+	List_Inserti(adj->fedges,newedges[j],k0);
 
       
 	/* Move the direction bits after the (i+ncom)'th bit to the
@@ -277,7 +278,7 @@ extern "C" {
 	 the rest of the inserted edges */
 
 	
-	for (k = ne-1; k >= i+j; k--) {
+	for (k = ne-1; k >= k0; k--) {
 
 	  /* set bit k+1 to 0 */
 	  adj->edirs = adj->edirs & ~(1UL<<(k+1));
@@ -289,9 +290,9 @@ extern "C" {
 	  adj->edirs = adj->edirs | (dir<<(k+1));	
 	}
 
-	/* set bit j according to input */
-	adj->edirs = adj->edirs & ~(1UL<<(i+j)); /* Set bit to 0 */
-	adj->edirs = adj->edirs | (newdirs[j]<<(i+j)); /* set to newdir */
+	/* set bit k0 according to input */
+	adj->edirs = adj->edirs & ~(1UL<<k0); /* Set bit to 0 */
+	adj->edirs = adj->edirs | (newdirs[j]<<k0); /* set to newdir */
 
 	ne++;
       }
-- 
2.43.0


From 62da82512e5e85d5da6927d506605c9437594d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 70/75] fix: MESH_Renumber lists each neighbour of each entity
 once: face graphs were empty, region graphs had duplicates, and without
 marker bits marks stayed on from one entity to the next

---
 src/hilev/MESH_Renumber.c | 40 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/hilev/MESH_Renumber.c b/src/hilev/MESH_Renumber.c
index 73414b7..f90970a 100644
--- a/src/hilev/MESH_Renumber.c
+++ b/src/hilev/MESH_Renumber.c
@@ -153,6 +153,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           if (vfaces) List_Delete(vfaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
@@ -208,6 +212,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           if (vregions) List_Delete(vregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjvlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjv = List_Next_Entry(adjvlist,&idx2)))
+            MEnt_Set_AttVal(adjv, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjvlist);
@@ -407,6 +415,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           if (efaces) List_Delete(efaces);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjelist);
@@ -462,6 +474,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           if (eregions) List_Delete(eregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjelist,mkid);
+#else
+          idx2 = 0;
+          while ((adje = List_Next_Entry(adjelist,&idx2)))
+            MEnt_Set_AttVal(adje, mkatt, 0, 0.0, NULL);
 #endif
           
           nadj[i] = List_Num_Entries(adjelist);
@@ -648,7 +664,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -663,6 +679,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(fverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
@@ -703,7 +723,7 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjf, mkatt, &fmarked, &rval, &pval);
 #endif
-                if (fmarked) {
+                if (!fmarked) {
                   List_Add(adjflist,adjf);
 #ifdef MSTK_USE_MARKERS                  
                   MEnt_Mark(adjf,mkid);
@@ -718,6 +738,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           if (fregions) List_Delete(fregions);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjflist,mkid);
+#else
+          idx2 = 0;
+          while ((adjf = List_Next_Entry(adjflist,&idx2)))
+            MEnt_Set_AttVal(adjf, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjflist);
@@ -921,12 +945,14 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
 #else
                 MEnt_Get_AttVal(adjr, mkatt, &rmarked, &rval, &pval);
 #endif
-                List_Add(adjrlist,adjr);
+                if (!rmarked) {
+                  List_Add(adjrlist,adjr);
 #ifdef MSTK_USE_MARKERS
-                MEnt_Mark(adjr,mkid);
+                  MEnt_Mark(adjr,mkid);
 #else
-                MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
+                  MEnt_Set_AttVal(adjr, mkatt, 1, 0.0, NULL);
 #endif
+                }
               }
             }	    
             List_Delete(vregions);
@@ -934,6 +960,10 @@ void MESH_Renumber(Mesh_ptr mesh, int renum_type, MType mtype) {
           List_Delete(rverts);
 #ifdef MSTK_USE_MARKERS
           List_Unmark(adjrlist,mkid);
+#else
+          idx2 = 0;
+          while ((adjr = List_Next_Entry(adjrlist,&idx2)))
+            MEnt_Set_AttVal(adjr, mkatt, 0, 0.0, NULL);
 #endif
 
           nadj[i] = List_Num_Entries(adjrlist);
-- 
2.43.0


From f2c793d2f448e889fbc0208e99c6999643e57ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 71/75] fix: MESH_BuildEdgeClassfn takes the marks off the
 edges it has processed, as the build with marker bits does

---
 src/hilev/MESH_BuildEdgeClassfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hilev/MESH_BuildEdgeClassfn.c b/src/hilev/MESH_BuildEdgeClassfn.c
index a545333..f942ec2 100644
--- a/src/hilev/MESH_BuildEdgeClassfn.c
+++ b/src/hilev/MESH_BuildEdgeClassfn.c
@@ -548,7 +548,7 @@ extern "C" {
 #else
       idx2 = 0;
       while ((edge = List_Next_Entry(geedges, &idx2)))
-        MEnt_Set_AttVal(edge, processedatt, 1, 0.0, NULL);
+        MEnt_Set_AttVal(edge, processedatt, 0, 0.0, NULL);
 #endif
       List_Delete(geedges);
     }
-- 
2.43.0


From bf77c6653ee949829b348390cd0c0fcf25d985b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 72/75] fix: MF_AdjFaces lists a face that shares several edges
 with the face once

---
 src/base/MFace_F1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/MFace_F1.c b/src/base/MFace_F1.c
index 4f6754a..499c706 100644
--- a/src/base/MFace_F1.c
+++ b/src/base/MFace_F1.c
@@ -224,7 +224,7 @@ extern "C" {
 
       for (j = 0; j < nf; j++) {
 	ef = List_Entry(efaces,j);
-	if (ef != f)
+	if (ef != f && !List_Contains(adjfaces,ef))
 	  List_Add(adjfaces,ef);
       }
       List_Delete(efaces);
-- 
2.43.0


From 102e734aab560eed07f95de4ed52fff5499dd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 73/75] fix: MSet_Cat is defined under the name it is declared
 with and compares the kinds of both sets

---
 src/base/MSet.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/MSet.c b/src/base/MSet.c
index 50b61b9..8d37bf3 100644
--- a/src/base/MSet.c
+++ b/src/base/MSet.c
@@ -144,10 +144,10 @@ extern "C" {
   }
 
 
-  MSet_ptr    MSets_Cat(MSet_ptr dest, MSet_ptr src) {    
+  MSet_ptr    MSet_Cat(MSet_ptr dest, MSet_ptr src) {    
     if (MSet_Mesh(dest) != MSet_Mesh(src) ||
-	MSet_EntDim(dest) != MSet_EntDim(dest)) {
-      MSTK_Report("MSets_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
+	MSet_EntDim(dest) != MSet_EntDim(src)) {
+      MSTK_Report("MSet_Cat","MSets must belong to same mesh and have same type of entities",MSTK_FATAL);
     }
 
     dest->entlist = List_Cat(dest->entlist, src->entlist);
-- 
2.43.0


From b5f74187581152ed0239b2a50e74441e881ab9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 74/75] fix: MESH_ReadExodusII_Serial has a direction for all
 five faces of a pyramid

---
 src/io/MESH_ReadExodusII_Serial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/MESH_ReadExodusII_Serial.c b/src/io/MESH_ReadExodusII_Serial.c
index 6ed24fa..cc1b791 100644
--- a/src/io/MESH_ReadExodusII_Serial.c
+++ b/src/io/MESH_ReadExodusII_Serial.c
@@ -77,7 +77,7 @@ extern "C" {
     int exo_rfdirs[4][6] =
         {{1,1,1,1,-99,-99},
          {1,1,1,1,1,-99},
-         {1,1,1,1,-99,-99},
+         {1,1,1,1,1,-99},
          {1,1,1,1,1,1}};
 
     List_ptr fedges, rfaces;
-- 
2.43.0


From bb8c90e617f0395b4e9b71c0bdf5ac18adb77fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 75/75] fix: pyramids are written to and read from GMV files
 with the same order of vertices, the apex first

---
 src/io/MESH_ExportToGMV.c   | 2 +-
 src/io/MESH_ImportFromGMV.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/MESH_ExportToGMV.c b/src/io/MESH_ExportToGMV.c
index 40a9ff6..3f9b730 100644
--- a/src/io/MESH_ExportToGMV.c
+++ b/src/io/MESH_ExportToGMV.c
@@ -77,7 +77,7 @@ int MESH_ExportToGMV(Mesh_ptr mesh, const char *filename, const int natt,
   time_t                ctime;
 
   int			rtmpl[5][8] =   {{0,2,1,3,-1,-1,-1,-1},
-					 {0,3,2,1,4,-1,-1,-1},
+					 {4,0,1,2,3,-1,-1,-1},
 					 {3,4,5,0,1,2,-1,-1},
 					 {-1,-1,-1,-1,-1,-1,-1,-1},
 					 {4,5,6,7,0,1,2,3}};
diff --git a/src/io/MESH_ImportFromGMV.c b/src/io/MESH_ImportFromGMV.c
index 870e3a2..b172d9e 100644
--- a/src/io/MESH_ImportFromGMV.c
+++ b/src/io/MESH_ImportFromGMV.c
@@ -37,7 +37,7 @@ extern "C" {
   int distributed=0;
 
   int rtmpl[5][8] = {{0,2,1,3,-1,-1,-1,-1},
-		     {1,2,3,4,0,-1,-1,-1},
+		     {4,0,1,2,3,-1,-1,-1},
 		     {3,4,5,0,1,2,-1,-1},
 		     {-1,-1,-1,-1,-1,-1,-1,-1},  /* dummy 7 node element */
 		     {4,5,6,7,0,1,2,3}};
-- 
2.43.0

