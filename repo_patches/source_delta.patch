From 30dd4ae1330c2e34c0b0b3627a6c7d7a66db7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 01/44] fix: release graph iterators on every return of isCut
 and checkValidity

---
 agi/agiEdge.cpp  | 1 +
 agi/agiValid.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 1eb3f14..295ff8b 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -50,6 +50,7 @@ namespace agi {
 	return true;
       }
     }
+    destroy(pitr);
     return false;
   }
 
diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index b7e60ff..33f6b71 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -54,6 +54,8 @@ namespace agi {
             EnGPar_Error_Message("Process %d: Vertex, %ld, is connected to edge, %ld, "
                                  "but the edge is not connected to the vertex\n",
                                  PCU_Comm_Self(),g->globalID(vtx),g->globalID(edge));
+            g->destroy(pitr);
+            g->destroy(eitr);
             return false;
           }
           g->destroy(pitr);
@@ -119,6 +121,7 @@ namespace agi {
         if(g->degree(edge)!=j) {
           EnGPar_Error_Message("Process: %d Degree of edge %ld does not match the "
                                "number of vertices that it connects.", PCU_Comm_Self(),vtx);
+          g->destroy(eitr);
           return false;
         }
       }
-- 
2.43.0


From ebbc1ed92dddc57d04f352a95a098c2785875991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 02/44] fix: size and release the split-edge counts of
 binGraph::migrate

---
 interfaces/binGraph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..914b776 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -126,8 +126,8 @@ void binGraph::migrate(agi::EdgePartitionMap& map) {
 
   ghost_unmap = new gid_t[dups.size()];
   owners = new part_t[dups.size()];
-  int64_t* temp_counts = new int64_t[num_local_verts];
-  memcpy(temp_counts, degree_list[SPLIT_TYPE], num_local_verts*sizeof(int64_t));
+  lid_t* temp_counts = new lid_t[num_local_verts];
+  memcpy(temp_counts, degree_list[SPLIT_TYPE], num_local_verts*sizeof(lid_t));
 
   edge_list[SPLIT_TYPE] = new lid_t[dups.size()];
   
@@ -137,6 +137,7 @@ void binGraph::migrate(agi::EdgePartitionMap& map) {
     ghost_unmap[i]=dups[i];
     owners[i] = owns[i];
   }
+  delete [] temp_counts;
   num_global_edges[SPLIT_TYPE] = PCU_Add_Long(num_local_edges[SPLIT_TYPE]);
 }
 
-- 
2.43.0


From a853d2c62929bffd0ce53ace5d292b7f60ed039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 03/44] fix: balance log entries on every return

---
 agi/agiConstruct.cpp                              | 3 +++
 agi/agiVertex.cpp                                 | 6 +++++-
 partition/Diffusive/src/engpar_balancer.cpp       | 2 ++
 partition/Diffusive/src/engpar_weightBalancer.cpp | 5 +++++
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..2cc26cb 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -502,6 +502,9 @@ namespace agi {
     edge_unmap[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
   }
   
   void Ngraph::destroyData() {
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 55ed6ef..959d2dd 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -85,8 +85,12 @@ void Ngraph::setOriginalOwners() {
     sprintf(message,"setOriginalOwners\n");
     EnGPar_Log_Function(message);
   }
-  if (original_owners)
+  if (original_owners) {
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
     return;
+  }
   original_owners = new part_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     original_owners[i]=PCU_Comm_Self();
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index f470942..3afd089 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -221,6 +221,8 @@ namespace engpar {
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5a7cf9e..25be2b8 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -119,6 +119,9 @@ namespace engpar {
   void WeightBalancer::balance() {
     WeightInput* inp = dynamic_cast<WeightInput*>(input);
     if (EnGPar_Is_Log_Open()) {
+      char message[25];
+      sprintf(message,"balance() : \n");
+      EnGPar_Log_Function(message);
       /*
         TODO: write logging info for weight input
       char message[1000];
@@ -148,6 +151,8 @@ namespace engpar {
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("Ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
-- 
2.43.0


From a7a80ef68c0dca1fd88e63ed1130ade2fad883b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 04/44] fix: Fortran edge types have the width of agi::etype
 for every local id width

---
 agi/agi_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agi_types.h b/agi/agi_types.h
index 22f4a2b..d0fffce 100644
--- a/agi/agi_types.h
+++ b/agi/agi_types.h
@@ -9,7 +9,7 @@
 #define AGI_WGT_FT  C_DOUBLE
 #define AGI_PART_T  int32_t
 #define AGI_PART_FT C_INT32_T
-#define AGI_EDGE_T  LOCAL_ID_TYPE
-#define AGI_EDGE_FT LOCAL_ID_FTYPE
+#define AGI_EDGE_T  int
+#define AGI_EDGE_FT C_INT
 
 #endif
-- 
2.43.0


From fb263430a7d9bd804b623f4f12564571ad1edf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 05/44] fix: define cengpar_createLocalSplitInput with the
 parameters it is declared with

---
 interfaces/cengpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index cfac2ff..a8ed204 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -25,7 +25,7 @@ ngraph cengpar_createEmptyGraph() {
 
 
 engparInput cengpar_createLocalSplitInput(ngraph g, MPI_Fint smallComm, MPI_Fint largeComm,
-    bool isOrig, int splitFactor, double tol, agi::etype t, agi::part_t* ranks) {
+    bool isOrig, int splitFactor, double tol, agi::part_t* ranks, agi::etype t) {
   MPI_Comm s = MPI_Comm_f2c(smallComm);
   MPI_Comm l = MPI_Comm_f2c(largeComm);
   agi::Ngraph* ng = (agi::Ngraph*)g;
-- 
2.43.0


From 6eeb1b425a5d04f0f55c63256f0842620408467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 06/44] fix: accept every split method by name in cengpar_split

---
 interfaces/cengpar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index a8ed204..4998045 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -63,6 +63,7 @@ void cengpar_split(engparInput in, const char method[]) {
   std::map<std::string,int> methods;
   methods["GLOBAL_PARMETIS"] = engpar::GLOBAL_PARMETIS;
   methods["LOCAL_PARMETIS"] = engpar::LOCAL_PARMETIS;
+  methods["ZOLTAN_PHG"] = engpar::ZOLTAN_PHG;
   assert( methods.count(method) );
   engpar::split(input, (engpar::SPLIT_METHOD)methods[method]);
 }
-- 
2.43.0


From 5bba6cfe5b0679431597fea526b28ad597b14781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 07/44] fix: cengpar_getPartition fills its arrays, so they are
 not intent(in)

---
 ftn/engpar.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ftn/engpar.f90 b/ftn/engpar.f90
index f4e7506..af5568d 100644
--- a/ftn/engpar.f90
+++ b/ftn/engpar.f90
@@ -292,8 +292,8 @@ module engpar
              bind(C, NAME='cengpar_getPartition')
     use :: iso_c_binding
     type(c_ptr), value :: graph
-    integer(AGI_GID_FT), intent(in), dimension(nverts) :: verts
-    integer(AGI_PART_FT), intent(in), dimension(nverts) :: parts
+    integer(AGI_GID_FT), intent(inout), dimension(nverts) :: verts
+    integer(AGI_PART_FT), intent(inout), dimension(nverts) :: parts
     integer(C_INT), intent(in), value :: nverts
   end subroutine
   end interface
-- 
2.43.0


From a80b98074b8c6c0b005148be207f7b8092b63514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 08/44] fix: reduce signed 64-bit metrics as signed

---
 partition/Metrics/engpar_metrics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Metrics/engpar_metrics.cpp b/partition/Metrics/engpar_metrics.cpp
index c405626..2804f2a 100644
--- a/partition/Metrics/engpar_metrics.cpp
+++ b/partition/Metrics/engpar_metrics.cpp
@@ -53,14 +53,14 @@ namespace engpar {
     agi::gid_t in = my_val;
     agi::gid_t max,min,total;
     double avg,imb;
-    MPI_Datatype type = MPI_UNSIGNED_LONG;
+    MPI_Datatype type = MPI_INT64_T;
     MPI_Allreduce(&in,&max,1,type,MPI_MAX,PCU_Get_Comm());
     MPI_Allreduce(&in,&min,1,type,MPI_MIN,PCU_Get_Comm());
     MPI_Allreduce(&in,&total,1,type,MPI_SUM,PCU_Get_Comm());
     avg = total*1.0/PCU_Comm_Peers();
     imb = max*1.0/avg;
     if (!PCU_Comm_Self())
-      EnGPar_Status_Message("%s <max, min, avg, imb> = <%lu %lu %f %f>\n",
+      EnGPar_Status_Message("%s <max, min, avg, imb> = <%ld %ld %f %f>\n",
              prefix.c_str(),max,min,avg,imb);
   }
   void printMaxMinAvgImb(agi::wgt_t my_val,std::string prefix) {
-- 
2.43.0


From 590b22ae430abf28bb0f2077cf4f21c605716177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 09/44] fix: SplitInput knows its own part from construction

---
 partition/Multilevel/engpar_split_input.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/partition/Multilevel/engpar_split_input.h b/partition/Multilevel/engpar_split_input.h
index c1feccd..f1c1aeb 100644
--- a/partition/Multilevel/engpar_split_input.h
+++ b/partition/Multilevel/engpar_split_input.h
@@ -14,6 +14,7 @@ namespace engpar {
       split_factor = 1;
       total_parts = PCU_Comm_Peers();
       tolerance = 1.05;
+      self = PCU_Comm_Self();
       edge_type = 0;
       other_ranks = NULL;
     }
-- 
2.43.0


From 3e117a3377d4626c5766d7695b9e20501b2c5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 10/44] fix: checkValidity takes part in every collective check
 on every process

---
 agi/agiValid.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index 33f6b71..810e495 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -4,6 +4,8 @@
 namespace agi {
 
   bool checkValidity(Ngraph* g) {
+    //Every process performs all of the checks so the collective sums always match
+    bool valid = true;
     lid_t i =0;
     VertexIterator* vitr = g->begin();
     GraphVertex* vtx;
@@ -13,13 +15,13 @@ namespace agi {
     if(g->numLocalVtxs()!=i) {
       EnGPar_Error_Message("Number of local vertices does not match the number of "
                            "vertices on process %d\n", PCU_Comm_Self());
-      return false;
+      valid = false;
     }
     lid_t ig = PCU_Add_Long(i);
     if(g->numGlobalVtxs()!=ig) {
       EnGPar_Error_Message("Number of global vertices does not match the sum of "
                            "the number of vertices on each process\n");
-      return false;
+      valid = false;
     }
     vitr = g->begin();
     while ((vtx = g->iterate(vitr))) {
@@ -33,7 +35,7 @@ namespace agi {
         if(g->degree(vtx,t)!=j) {
           EnGPar_Error_Message("Process: %d Degree of vertex %ld does not match the "
                                "number of edges adjacent to it.", PCU_Comm_Self(),vtx);
-          return false;
+          valid = false;
         }
       }
     }
@@ -54,9 +56,7 @@ namespace agi {
             EnGPar_Error_Message("Process %d: Vertex, %ld, is connected to edge, %ld, "
                                  "but the edge is not connected to the vertex\n",
                                  PCU_Comm_Self(),g->globalID(vtx),g->globalID(edge));
-            g->destroy(pitr);
-            g->destroy(eitr);
-            return false;
+            valid = false;
           }
           g->destroy(pitr);
         }
@@ -91,24 +91,24 @@ namespace agi {
       if(i!=g->numLocalEdges(t)) {
         EnGPar_Error_Message("Process %d: Number of local edges does not match "
                              "the number of actual edges\n",PCU_Comm_Self());
-        return false;
+        valid = false;
       }
       j = PCU_Add_Long(j);
       if(j!=g->numGlobalEdges(t)) {
         EnGPar_Error_Message("Number of global edges does not match the sum of "
                              "the number of edges on each process\n");
-        return false;
+        valid = false;
       }
       if(l!=g->numLocalPins(t)) {
         EnGPar_Error_Message("Process %d: Number of local pins does not match "
                              "the number of actual pins\n",PCU_Comm_Self());
-        return false;
+        valid = false;
       }
       k = PCU_Add_Long(k);
       if(k!=g->numGlobalPins(t)) {
         EnGPar_Error_Message("Number of global pins does not match the sum of "
                              "the number of pins on each process\n");
-        return false;
+        valid = false;
       }
       eitr = g->begin(t);
       while ((edge = g->iterate(eitr))) {
@@ -121,8 +121,7 @@ namespace agi {
         if(g->degree(edge)!=j) {
           EnGPar_Error_Message("Process: %d Degree of edge %ld does not match the "
                                "number of vertices that it connects.", PCU_Comm_Self(),vtx);
-          g->destroy(eitr);
-          return false;
+          valid = false;
         }
       }
       g->destroy(eitr);
@@ -134,17 +133,17 @@ namespace agi {
       if(g->owner(gv)==PCU_Comm_Self()) {
         EnGPar_Error_Message("Process %d: invalid ghost vertex, %d, that is owned by itself\n",
                              PCU_Comm_Self(),g->globalID(gv));
-        return false;
+        valid = false;
       }
       if(g->owner(gv)>=PCU_Comm_Peers()) {
         EnGPar_Error_Message("Process %d: ghost vertex, %d, is owned by a process that does "
                              "not exist\n", PCU_Comm_Self(),g->globalID(gv));
                              
-        return false;
+        valid = false;
       }
     }
     
-    return true;
+    return valid;
   }
   
   
-- 
2.43.0


From 5d14f4afe8be9f50861435151a4de2afd898cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 11/44] fix: binGraph mapped edge targets that were already
 local ids a second time

---
 interfaces/binGraph.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 914b776..9c0b46e 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -297,11 +297,8 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
       continue;
     if (vtx_mapping.count(out) == 0) {
       vtx_mapping[out] = cur_label;
-      local_unmap[cur_label] = out;
-      edge_list[t][i] = cur_label++;
+      local_unmap[cur_label++] = out;
     }
-    else        
-      edge_list[t][i] = vtx_mapping[out];
   }
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
@@ -311,12 +308,12 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   for (lid_t i = 0; i < num_local_verts; ++i)
     temp_counts[i] = 0;
   for (lid_t i = 0; i < num_local_edges[t]*2; i+=2)
-    ++temp_counts[edge_list[t][i]];
+    ++temp_counts[vtx_mapping[edge_list[t][i]]];
   for (lid_t i = 0; i < num_local_verts; ++i)
     degree_list[t][i+1] = degree_list[t][i] + temp_counts[i];
   memcpy(temp_counts, degree_list[t], num_local_verts*sizeof(lid_t));
   for (lid_t i = 0; i < num_local_edges[t]*2; i+=2) {
-    tmp_edges[temp_counts[edge_list[t][i]]++] = edge_list[t][i+1];
+    tmp_edges[temp_counts[vtx_mapping[edge_list[t][i]]]++] = edge_list[t][i+1];
   }
   delete [] temp_counts;
   delete [] edge_list[t];
@@ -333,7 +330,7 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
         edge_list[t][i] = cur_label++;
         nonlocal_vids.push_back(out);
       }
-      else if (vtx_mapping[out] >= num_local_verts)
+      else
         edge_list[t][i] = vtx_mapping[out];
     }
     num_ghost_verts = cur_label - num_local_verts;
@@ -346,6 +343,10 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
       }
     }
   }
+  else {
+    for (int64_t i = 0; i < num_local_edges[t]; ++i)
+      edge_list[t][i] = vtx_mapping[edge_list[t][i]];
+  }
 
   //Create the ghost weights
   if (PCU_Comm_Peers() > 1)
-- 
2.43.0


From fb48a55ac7961b9babed1c6bdf7e7497e48c950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 12/44] fix: binGraph left owned vertices without local edges
 unlabelled

---
 interfaces/binGraph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 9c0b46e..13da0c8 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -300,6 +300,13 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
       local_unmap[cur_label++] = out;
     }
   }
+  //Owned vertices that no edge of this part mentions
+  for (int64_t i = 0; i < num_global_verts; ++i) {
+    if (ranks[i] == PCU_Comm_Self() && vtx_mapping.count(i) == 0) {
+      vtx_mapping[i] = cur_label;
+      local_unmap[cur_label++] = i;
+    }
+  }
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
-- 
2.43.0


From afa6e08d5814e94c52bc19988382f98596141da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 13/44] fix: the VEV and EVE iterators keep their edge type
 when advanced

---
 agi/agiIterate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..52c3201 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -122,7 +122,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From 3215530394a9f7a436563ba8152d638e854ea370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 14/44] fix: create_vev/eve_adjacency walk the edge type they
 are asked for

---
 agi/agiConstruct.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 2cc26cb..24c3659 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -633,7 +633,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -654,7 +654,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -692,7 +692,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -721,7 +721,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
-- 
2.43.0


From d8a62691f9446d19baaba4b2ef557c507c9db680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 15/44] fix: migration sends the edges and ghost owners of
 every edge type

---
 agi/agiMigrate.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..17da9b2 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -31,16 +31,18 @@ namespace agi {
       GraphVertex* v = *itr;
       gid_t gid = globalID(v);
       part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
+      for (etype t = 0;t<num_types;t++) {
+        GraphIterator* gitr = adjacent(v,t);
+        GraphVertex* other;
+        while ((other=iterate(gitr))) {
+          part_t own = owner(other);
+          if (own!=PCU_Comm_Self()) {
+            PCU_COMM_PACK(own,gid);
+            PCU_COMM_PACK(own,toSend);
+          }
         }
+        destroy(gitr);
       }
-      destroy(gitr);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
@@ -77,7 +79,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From e95521b93908d8d8dc222a009b0af7ed6705dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 16/44] fix: bfs_push walks the edge type it is given

---
 partition/Diffusive/src/engpar_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..e8792bb 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -170,7 +170,7 @@ namespace engpar {
         int process = g->getIntTag(processed,bridge);
         if (process)
           continue;
-        agi::EdgeIterator* eitr = g->edges(bridge);
+        agi::EdgeIterator* eitr = g->edges(bridge,t);
         agi::GraphEdge* dest;
         while ((dest = g->iterate(eitr))) {
           if (dest==source)
-- 
2.43.0


From ec5f620a5ff9296d9e18268ae3eac699cd58e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 17/44] fix: selection_edge_type and the weight balancer's edge
 type choose the cavities' edges

---
 partition/Diffusive/src/engpar_balancer.cpp       |  2 +-
 partition/Diffusive/src/engpar_queue.cpp          | 10 +++++-----
 partition/Diffusive/src/engpar_queue.h            |  2 +-
 partition/Diffusive/src/engpar_selector.cpp       | 14 +++++++-------
 partition/Diffusive/src/engpar_weightBalancer.cpp |  4 ++--
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 3afd089..c791790 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -130,7 +130,7 @@ namespace engpar {
       pq = createDistanceQueue(inp);
     }
     else 
-      pq = createIterationQueue(input->g);
+      pq = createIterationQueue(input->g,inp->selection_edge_type);
     distance_time+=PCU_Time()-t;
 
     Selector* selector = makeSelector(inp,pq,&completed_dimensions,
diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index e8792bb..bb13c1c 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -2,10 +2,10 @@
 #include <PCU.h>
 
 namespace engpar {
-  Queue* createIterationQueue(agi::Ngraph* g) {
+  Queue* createIterationQueue(agi::Ngraph* g, agi::etype t) {
     int n=0;
     agi::GraphEdge* edge;
-    agi::EdgeIterator* eitr = g->begin(0);
+    agi::EdgeIterator* eitr = g->begin(t);
     while ((edge = g->iterate(eitr))) {
       agi::PinIterator* pitr = g->pins(edge);
       agi::lid_t degree = g->degree(edge);
@@ -20,7 +20,7 @@ namespace engpar {
     }
     g->destroy(eitr);
     Queue* q = new Queue(n);
-    eitr = g->begin(0);
+    eitr = g->begin(t);
     while ((edge = g->iterate(eitr))) {
       agi::PinIterator* pitr = g->pins(edge);
       agi::lid_t degree = g->degree(edge);
@@ -247,11 +247,11 @@ namespace engpar {
 
   Queue* createDistanceQueue(DiffusiveInput* input) {
     agi::Ngraph* g = input->g;
-    if (g->numLocalEdges()==0) {
+    agi::etype t = input->selection_edge_type;
+    if (g->numLocalEdges(t)==0) {
       return new Queue(0);
     }
     agi::PNgraph* pg = g->publicize();
-    agi::etype t = 0;
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
diff --git a/partition/Diffusive/src/engpar_queue.h b/partition/Diffusive/src/engpar_queue.h
index 20a2291..9ecc2e7 100644
--- a/partition/Diffusive/src/engpar_queue.h
+++ b/partition/Diffusive/src/engpar_queue.h
@@ -42,7 +42,7 @@ namespace engpar {
     agi::GraphEdge** next;
   };
   typedef ShrinkingArray Queue;
-  Queue* createIterationQueue(agi::Ngraph*);
+  Queue* createIterationQueue(agi::Ngraph*, agi::etype t=0);
   Queue* createDistanceQueue(DiffusiveInput*);
 }
 
diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..5808414 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -52,7 +52,7 @@ namespace engpar {
   }
   
   void getCavityPeers(agi::Ngraph* g, agi::Migration* plan,
-		      Cavity& cav, Peers& peers) {
+		      Cavity& cav, Peers& peers, agi::etype t) {
 
     //Grab all vertices connected to the edge that are on part
     typedef std::unordered_map<agi::part_t, std::unordered_set<agi::GraphEdge*> > Peer_Map;
@@ -62,7 +62,7 @@ namespace engpar {
     //Add all of the edges of the vertex to a set
     for (c_itr = cav.begin(); c_itr != cav.end(); ++c_itr) {
       agi::GraphEdge* e;
-      agi::EdgeIterator* eitr = g->edges(*c_itr);
+      agi::EdgeIterator* eitr = g->edges(*c_itr,t);
       while ((e=g->iterate(eitr)))
 	edgesOfCavity.insert(e);
       g->destroy(eitr);
@@ -168,12 +168,12 @@ namespace engpar {
     return true;
   }
 
-  double edgeCutGrowth(agi::Ngraph* g, Cavity& cav, part_t peer) {
+  double edgeCutGrowth(agi::Ngraph* g, Cavity& cav, part_t peer, agi::etype t) {
     int cut_pins = 0;
     int uncut_pins = 0;
     Cavity::iterator itr;
     for (itr = cav.begin(); itr != cav.end(); ++itr) {
-      agi::EdgeIterator* eitr = g->edges(*itr);
+      agi::EdgeIterator* eitr = g->edges(*itr,t);
       agi::GraphEdge* e;
       while ((e = g->iterate(eitr))) {
         if (g->isResidentOn(e,peer))
@@ -195,7 +195,7 @@ namespace engpar {
       //Create Cavity and peers
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
-      getCavityPeers(g,plan,cav,peers);
+      getCavityPeers(g,plan,cav,peers,in->selection_edge_type);
       bool sent = false;
       if (cav.size() < cavSize) { //If the cavity is small enough
         Peers::iterator pitr;
@@ -204,7 +204,7 @@ namespace engpar {
           if (targets->has(peer) && // Targeting this neighbor
               sending[*pitr]<targets->get(peer) && //Havent sent too much weight to this peer
               (in->limitEdgeCutGrowth <= 0 ||
-               edgeCutGrowth(g, cav, peer) < in->limitEdgeCutGrowth)) {
+               edgeCutGrowth(g, cav, peer, in->selection_edge_type) < in->limitEdgeCutGrowth)) {
                 //add cavity to plan
                 wgt_t w = addCavity(g,cav,peer,plan,target_dimension);
                 planW+=w;
@@ -232,7 +232,7 @@ namespace engpar {
       //Create Cavity and peers
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
-      getCavityPeers(g,plan,cav,peers);
+      getCavityPeers(g,plan,cav,peers,in->selection_edge_type);
       if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 25be2b8..f53479d 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -67,7 +67,7 @@ namespace engpar {
       //pq = createDistanceQueue(inp);
       ;
     else
-      pq = createIterationQueue(input->g);
+      pq = createIterationQueue(input->g,inp->primary_edge_type);
     distance_time+=PCU_Time()-t;
 
     WeightSelector* selector = makeWeightSelector(inp,pq);
@@ -177,7 +177,7 @@ namespace engpar {
 
 
     //Set side tolerance to arbitrarily high number such that it will be ignored in targeting
-    sideTol = inp->g->numGlobalEdges()*10;
+    sideTol = inp->g->numGlobalEdges(inp->primary_edge_type)*10;
 
     char buffer[100];
     getImbalances(input->g,buffer);
-- 
2.43.0


From 0fd8e6ba279a4bcf5ed74a1e6162ed56f9e5c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 18/44] fix: createDistanceQueue seeds an existing edge in
 graphs of fewer than three edges

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index bb13c1c..ed53e34 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -255,9 +255,9 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
+    //If run in serial use edge 2 (or the last edge) for the seed
     if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
+       in1->seeds[in1->numSeeds++]=pg->num_local_edges[t]>2 ? 2 : pg->num_local_edges[t]-1;
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From 401f219d945d0d4e237450cb196c858767cf2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 19/44] fix: traditional graphs store each edge's weight where
 the edge is stored

---
 agi/agiConstruct.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 24c3659..309c6d5 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -221,8 +221,12 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    edge_weights[t] = new wgt_t[edge_ids.size()];
     //Loop through edges again to build the edge lists
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
+      wgt_t w = (lid_t)e_weights.size()>i ? e_weights[i] : 1;
+      if (isHyperGraph)
+        edge_weights[t][i] = w;
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
         if (u>=num_local_verts){
@@ -239,22 +243,16 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          //The weight goes where the edge is stored
+          if (u<num_local_verts) {
+            edge_weights[t][temp_counts[u]] = w;
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[edge_ids.size()];
-    if (e_weights.size()==0)
-      for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<(lid_t)e_weights.size();i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
@@ -329,7 +327,11 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    edge_weights[t] = new wgt_t[num_edges];
     for (lid_t i=0;i<num_edges;i++) {
+      wgt_t w = e_weights ? e_weights[i] : 1;
+      if (isHyperGraph)
+        edge_weights[t][i] = w;
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
         if (u>=num_local_verts){
@@ -344,22 +346,16 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          //The weight goes where the edge is stored
+          if (u<num_local_verts) {
+            edge_weights[t][temp_counts[u]] = w;
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[num_edges];
-    if (!e_weights)
-      for (lid_t i=0;i<num_edges;i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<num_edges;i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 795d7b38fbcca1bd9281d1323386454748fcb13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 20/44] fix: distance computation holds edge ids and distances
 in lid_t

---
 partition/Diffusive/src/engpar_queue.cpp    | 70 ++++++++++-----------
 partition/Diffusive/src/engpar_queue.h      |  2 +-
 partition/Diffusive/src/engpar_selector.cpp |  2 +-
 3 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index ed53e34..f5804a9 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -3,7 +3,7 @@
 
 namespace engpar {
   Queue* createIterationQueue(agi::Ngraph* g, agi::etype t) {
-    int n=0;
+    agi::lid_t n=0;
     agi::GraphEdge* edge;
     agi::EdgeIterator* eitr = g->begin(t);
     while ((edge = g->iterate(eitr))) {
@@ -40,10 +40,10 @@ namespace engpar {
   /* Sort algorithm adapted from:
    * http://www.algolist.net/Algorithms/Sorting/Quicksort
    */
-  void bfsSort(agi::lid_t* arr,int left, int right,int* values) {
-    int i = left, j = right;
-    int tmp;
-    int pivot = values[arr[(left + right) / 2]];
+  void bfsSort(agi::lid_t* arr,agi::lid_t left, agi::lid_t right,agi::lid_t* values) {
+    agi::lid_t i = left, j = right;
+    agi::lid_t tmp;
+    agi::lid_t pivot = values[arr[(left + right) / 2]];
     while (i <= j) {
       while (values[arr[i]] < pivot)
         i++;
@@ -90,20 +90,20 @@ namespace engpar {
     }
     agi::lid_t* seeds;
     agi::lid_t numSeeds;
-    int* visited;
+    agi::lid_t* visited;
 
-    int num_osets;//= numSeeds-start_seed;
-    int num_sets; //= num_osets;
-    int* parents; //= new int[num_sets];
-    int* set_size;//= new int[num_sets];
-    int* labels;  //= new int[pg->num_local_edges[t]];
+    agi::lid_t num_osets;//= numSeeds-start_seed;
+    agi::lid_t num_sets; //= num_osets;
+    agi::lid_t* parents; //= new lid_t[num_sets];
+    agi::lid_t* set_size;//= new lid_t[num_sets];
+    agi::lid_t* labels;  //= new lid_t[pg->num_local_edges[t]];
   };
   //Visit function takes in the input, the source edge and destination edge
   typedef bool (*visitFn)(Inputs*,agi::lid_t,agi::lid_t);
 
   //Visit function for first traversal
   bool depth_visit(Inputs* i,agi::lid_t source,agi::lid_t dest) {
-    int min_dist = i->visited[source];
+    agi::lid_t min_dist = i->visited[source];
     if (i->visited[dest]==-1) {
       i->seeds[i->numSeeds++] = dest;
       i->visited[dest] = min_dist+1;
@@ -114,8 +114,8 @@ namespace engpar {
   
   //Visit function for second traversal (uses disjoint sets)
   bool distance_visit(Inputs* i,agi::lid_t source, agi::lid_t dest) {
-    int label = i->labels[source];
-    int min_dist = i->visited[source];
+    agi::lid_t label = i->labels[source];
+    agi::lid_t min_dist = i->visited[source];
     if (label==-1)
       return false;
     while(label!=i->parents[label])
@@ -127,7 +127,7 @@ namespace engpar {
       i->set_size[label]++;
       return true;
     }
-    int l2 = i->labels[dest];
+    agi::lid_t l2 = i->labels[dest];
     while(l2!=i->parents[l2]) 
       l2=i->parents[l2];
     if (label!=l2) {
@@ -148,8 +148,8 @@ namespace engpar {
       the visit function
       inputs object
   */
-  int bfs_push(agi::Ngraph* g, agi::etype t, agi::lid_t start_seed,
-               int start_depth,visitFn visit, Inputs* in) {
+  agi::lid_t bfs_push(agi::Ngraph* g, agi::etype t, agi::lid_t start_seed,
+               agi::lid_t start_depth,visitFn visit, Inputs* in) {
     agi::GraphTag* processed = g->createIntTag(-1);
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
@@ -195,11 +195,11 @@ namespace engpar {
       the visit function
       inputs object
   */
-  int bfs_pull(agi::Ngraph* g, agi::etype t,agi::lid_t start_seed,
-               int start_depth, visitFn visit, Inputs* in) {
+  agi::lid_t bfs_pull(agi::Ngraph* g, agi::etype t,agi::lid_t start_seed,
+               agi::lid_t start_depth, visitFn visit, Inputs* in) {
     agi::PNgraph* pg = g->publicize();
 
-    int level=start_depth;
+    agi::lid_t level=start_depth;
     for (agi::lid_t i=start_seed;i<in->numSeeds;i++) 
       in->visited[in->seeds[i]] = level;
 
@@ -209,12 +209,12 @@ namespace engpar {
       current_vtxs[i] = i;
     agi::lid_t* next_vtxs = new agi::lid_t[pg->num_local_verts];
     agi::lid_t num_nv = 0;
-    int num_updates;
+    agi::lid_t num_updates;
     //Implemented for HG
     do {
       num_updates=0;
       for (agi::lid_t i=0;i<num_cv;i++) {
-        int source = -1;
+        agi::lid_t source = -1;
         agi::lid_t v = current_vtxs[i];
         for (agi::lid_t j=pg->degree_list[t][v];j<pg->degree_list[t][v+1];j++){
           agi::lid_t edge = pg->edge_list[t][j];
@@ -285,7 +285,7 @@ namespace engpar {
       return q;
     }
     
-    in1->visited = new int[pg->num_local_edges[t]];
+    in1->visited = new agi::lid_t[pg->num_local_edges[t]];
     for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
       in1->visited[i] = -1;
     }
@@ -296,11 +296,11 @@ namespace engpar {
       bfs_pull(g,t,0,0,depth_visit,in1);
     //Setup inputs to second BFS traversal
     Inputs* in2 = new Inputs;
-    in2->visited = new int[pg->num_local_edges[t]];
+    in2->visited = new agi::lid_t[pg->num_local_edges[t]];
     in2->seeds = new agi::lid_t[pg->num_local_edges[t]];
     for (agi::lid_t i = 0; i < pg->num_local_edges[t]; i++)
       in2->visited[i] = -1;
-    in2->labels = new int[pg->num_local_edges[t]];
+    in2->labels = new agi::lid_t[pg->num_local_edges[t]];
     for (agi::lid_t i=0;i<pg->num_local_edges[t];i++)
       in2->labels[i]=-1;
 
@@ -314,7 +314,7 @@ namespace engpar {
         --ind;
       if (ind < 0)
         break;
-      int max_depth = in1->visited[in1->seeds[ind]];
+      agi::lid_t max_depth = in1->visited[in1->seeds[ind]];
       agi::lid_t start_seed = in2->numSeeds;
       while(ind >= 0 && in1->visited[in1->seeds[ind]] == max_depth) {
         if (in2->visited[in1->seeds[ind]] == -1)
@@ -326,9 +326,9 @@ namespace engpar {
       in2->num_sets = in2->num_osets;
       if (in2->num_sets==0)
         continue;
-      in2->parents = new int[in2->num_sets];
-      in2->set_size = new int[in2->num_sets];
-      for (int i=0;i<in2->num_sets;i++) {
+      in2->parents = new agi::lid_t[in2->num_sets];
+      in2->set_size = new agi::lid_t[in2->num_sets];
+      for (agi::lid_t i=0;i<in2->num_sets;i++) {
         in2->parents[i] = i;
         in2->set_size[i] = 1;
       }
@@ -342,17 +342,17 @@ namespace engpar {
       else
         depth = bfs_pull(g,t,start_seed,depth,distance_visit,in2);
       //Correct the distance when there are multiple disjoint sets
-      int addition=0;
+      agi::lid_t addition=0;
       if (in2->num_sets>1) {
-        for (int i=0;i<in2->num_sets;i++) {
-          int l=0;
-          for (int j=1;j<in2->num_osets;j++) {
+        for (agi::lid_t i=0;i<in2->num_sets;i++) {
+          agi::lid_t l=0;
+          for (agi::lid_t j=1;j<in2->num_osets;j++) {
             if (in2->set_size[j]>in2->set_size[l]) 
               l=j;
           }
           if (addition>0) {
             for (agi::lid_t j=start_seed;j<in2->numSeeds;j++) {
-              int l2 = in2->labels[in2->seeds[j]];
+              agi::lid_t l2 = in2->labels[in2->seeds[j]];
               if (l2<0)
                 continue;
               while (l2!=in2->parents[l2])
@@ -377,7 +377,7 @@ namespace engpar {
     }
     delete in1;
     //Setup the Queue from the second bfs
-    for (int i=in2->numSeeds;i>0;i--) {
+    for (agi::lid_t i=in2->numSeeds;i>0;i--) {
       agi::lid_t lid = in2->seeds[i-1];
       agi::GraphEdge* edge = pg->getEdge(lid,t);
       agi::Peers res;
diff --git a/partition/Diffusive/src/engpar_queue.h b/partition/Diffusive/src/engpar_queue.h
index 9ecc2e7..e1570b8 100644
--- a/partition/Diffusive/src/engpar_queue.h
+++ b/partition/Diffusive/src/engpar_queue.h
@@ -7,7 +7,7 @@
 namespace engpar {
   class ShrinkingArray {
   public:
-    ShrinkingArray(int n) {
+    ShrinkingArray(agi::lid_t n) {
       s = 0;
       current = new agi::GraphEdge*[n];
       next = new agi::GraphEdge*[n];
diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 5808414..248462b 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -524,7 +524,7 @@ namespace engpar {
     }
   }
 
-  int degreeFunc(agi::Ngraph* g, agi::GraphVertex* v) {
+  agi::lid_t degreeFunc(agi::Ngraph* g, agi::GraphVertex* v) {
     return g->degree(v);
   }
 
-- 
2.43.0


From 4f74a14716b0c0ee38ced623a78ae9bcb917401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 21/44] fix: iterator and tag bounds keep 64-bit local ids

---
 agi/agiEdge.cpp    | 2 +-
 agi/agiIterate.cpp | 4 ++--
 agi/agiTag.cpp     | 6 +++---
 agi/agiVertex.cpp  | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 295ff8b..d5dc267 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -137,7 +137,7 @@ namespace agi {
   }
 
   void Ngraph::setEdgeWeights(wgt_t wgt, etype t) {
-    for (int i =0; i < num_local_edges[t]; ++i) {
+    for (lid_t i =0; i < num_local_edges[t]; ++i) {
       edge_weights[t][i] = wgt;
     }
   }
diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index 52c3201..9255eeb 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -47,7 +47,7 @@ namespace agi {
     etype type = id%num_types;
     id/=num_types;
     lid_t index;
-    if (id >= (unsigned)vev_offsets[type][num_local_verts])
+    if (id >= (uintptr_t)vev_offsets[type][num_local_verts])
       index = -1;
     else
       index = vev_lists[type][id];
@@ -117,7 +117,7 @@ namespace agi {
     etype type = id%num_types;
     id/=num_types;
     lid_t index;
-    if (id >= (unsigned)eve_offsets[type][num_local_edges[type]])
+    if (id >= (uintptr_t)eve_offsets[type][num_local_edges[type]])
       index = -1;
     else
       index = eve_lists[type][id]*num_types+type;
diff --git a/agi/agiTag.cpp b/agi/agiTag.cpp
index 98784b9..7cce5c9 100644
--- a/agi/agiTag.cpp
+++ b/agi/agiTag.cpp
@@ -39,7 +39,7 @@ namespace agi {
   }
   int Ngraph::getIntTag(GraphTag* t,GraphVertex* vtx) const {
     uintptr_t index = (uintptr_t)(vtx)-1;
-    if (index>=(unsigned)num_local_verts)
+    if (index>=(uintptr_t)num_local_verts)
       index-=num_local_verts;
     return reinterpret_cast<Info*>(t)->getInt(index);
   }
@@ -50,7 +50,7 @@ namespace agi {
   }
   double Ngraph::getDoubleTag(GraphTag* t,GraphVertex* vtx) const {
     uintptr_t index = (uintptr_t)(vtx)-1;
-    if (index>=(unsigned)num_local_verts)
+    if (index>=(uintptr_t)num_local_verts)
       index-=num_local_verts;
     return reinterpret_cast<Info*>(t)->getDouble(index);
   }
@@ -61,7 +61,7 @@ namespace agi {
   }
   long Ngraph::getLongTag(GraphTag* t,GraphVertex* vtx) const {
     uintptr_t index = (uintptr_t)(vtx)-1;
-    if (index >= (unsigned)num_local_verts)
+    if (index >= (uintptr_t)num_local_verts)
       index -= num_local_verts;
     return reinterpret_cast<Info*>(t)->getLong(index);
   }
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 959d2dd..6d0b9b1 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -166,7 +166,7 @@ bool Ngraph::isEqual(GraphVertex* u,GraphVertex* v) const {
 }
 
   void Ngraph::changeOwners(int* newRanks) {
-    for (int i=0;i<num_ghost_verts;++i)
+    for (lid_t i=0;i<num_ghost_verts;++i)
       owners[i] = newRanks[owners[i]];
   }
 
-- 
2.43.0


From f3c4477895b91793bccf2742da894a332ca2390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 22/44] fix: sums of vertices over all processes keep 64 bits

---
 agi/agiValid.cpp                                  |  6 +++---
 partition/Diffusive/src/engpar_balancer.cpp       | 12 ++++++------
 partition/Diffusive/src/engpar_weightBalancer.cpp |  9 +++++----
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index 810e495..a302f7e 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -17,7 +17,7 @@ namespace agi {
                            "vertices on process %d\n", PCU_Comm_Self());
       valid = false;
     }
-    lid_t ig = PCU_Add_Long(i);
+    gid_t ig = PCU_Add_Long(i);
     if(g->numGlobalVtxs()!=ig) {
       EnGPar_Error_Message("Number of global vertices does not match the sum of "
                            "the number of vertices on each process\n");
@@ -68,8 +68,8 @@ namespace agi {
       EdgeIterator* eitr = g->begin(t);
       GraphEdge* edge;
       i=0;
-      lid_t j=0;
-      lid_t k=0;
+      gid_t j=0;
+      gid_t k=0;
       lid_t l=0;
       while ((edge = g->iterate(eitr))) {
         i++;
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index c791790..72b554b 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -142,15 +142,15 @@ namespace engpar {
     }
     selector->selectDisconnected(plan,target_dimension);
     if (completed_dimensions.size()>0) {
-      int sizes[2];
+      long sizes[2];
       sizes[0] = plan->size();
       Midd* midd = selector->trim(targets,plan);
       selector->cancel(plan,midd);
       sizes[1]=plan->size();
       if (verbosity>=2) {
-        PCU_Add_Ints(sizes,2);
+        PCU_Add_Longs(sizes,2);
         if (!PCU_Comm_Self())
-          EnGPar_Status_Message("  Plan was trimmed from %d to %d vertices\n",sizes[0],sizes[1]);
+          EnGPar_Status_Message("  Plan was trimmed from %ld to %ld vertices\n",sizes[0],sizes[1]);
       }
     }
     delete pq;
@@ -162,8 +162,8 @@ namespace engpar {
     delete selector;
 
     stepTime = PCU_Time()-stepTime;
-    int numMigrate = plan->size();
-    numMigrate = PCU_Add_Int(numMigrate);
+    long numMigrate = plan->size();
+    numMigrate = PCU_Add_Long(numMigrate);
 
     if (numMigrate>0)
       input->g->migrate(plan, migrTime);
@@ -183,7 +183,7 @@ namespace engpar {
       if (!PCU_Comm_Self()) {
         if (sd->isFull())
           EnGPar_Status_Message("    Slope: %f\n",sd->slope());
-        EnGPar_Status_Message("    Migrating %d vertices took %f seconds\n",numMigrate, migrTime->getTime("total"));
+        EnGPar_Status_Message("    Migrating %ld vertices took %f seconds\n",numMigrate, migrTime->getTime("total"));
       }
     }
 
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index f53479d..70bcb83 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -1,6 +1,7 @@
 #include "engpar_balancer.h"
 #include "engpar_weightSelector.h"
 #include "engpar_queue.h"
+#include <limits>
 #include <PCU.h>
 #include <engpar_metrics.h>
 #include <engpar_support.h>
@@ -86,8 +87,8 @@ namespace engpar {
     delete selector;
 
     stepTime = PCU_Time()-stepTime;
-    int numMigrate = plan->size();
-    numMigrate = PCU_Add_Int(numMigrate);
+    long numMigrate = plan->size();
+    numMigrate = PCU_Add_Long(numMigrate);
 
     if (numMigrate>0)
       input->g->migrate(plan, migrTime);
@@ -107,7 +108,7 @@ namespace engpar {
       if (!PCU_Comm_Self()) {
         if (sd->isFull())
           EnGPar_Status_Message("    Slope: %f\n",sd->slope());
-        EnGPar_Status_Message("    Migrating %d weight took %f seconds\n",numMigrate, 0.0);//migrTime->getTime("total"));
+        EnGPar_Status_Message("    Migrating %ld weight took %f seconds\n",numMigrate, 0.0);//migrTime->getTime("total"));
       }
     }
 
@@ -177,7 +178,7 @@ namespace engpar {
 
 
     //Set side tolerance to arbitrarily high number such that it will be ignored in targeting
-    sideTol = inp->g->numGlobalEdges(inp->primary_edge_type)*10;
+    sideTol = std::numeric_limits<int>::max();
 
     char buffer[100];
     getImbalances(input->g,buffer);
-- 
2.43.0


From 300d5ec306cc7a98741346f692126e7d7ee59193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 23/44] fix: formats match the printed ids in both local id
 widths

---
 agi/agiVTK.cpp   |  8 ++++----
 agi/agiValid.cpp | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f0de133..7d1792d 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -98,7 +98,7 @@ namespace agi {
         PinIterator* pitr = g->pins(e);
         while ((v = g->iterate(pitr))) {
           if (g->owner(v)==PCU_Comm_Self())
-            fprintf(f,"%d %d\n",g->localID(e)+g->numLocalVtxs(),g->localID(v));
+            fprintf(f,"%ld %ld\n",(long)(g->localID(e)+g->numLocalVtxs()),(long)g->localID(v));
         }
         g->destroy(pitr);
       }
@@ -136,7 +136,7 @@ namespace agi {
       while ((e = g->iterate(eitr))) {
         GraphVertex* u = g->u(e);
         GraphVertex* v = g->v(e);
-        fprintf(f,"%d %d\n",g->localID(u),g->localID(v));
+        fprintf(f,"%ld %ld\n",(long)g->localID(u),(long)g->localID(v));
       }
       g->destroy(eitr);
       int off=0;
@@ -276,8 +276,8 @@ namespace agi {
     lid_t numPoints = g->numLocalVtxs();
     if (g->isHyper())
       numPoints+= g->numLocalEdges();
-    fprintf(f,"<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%ld\">\n",
-            numPoints,numCells);
+    fprintf(f,"<Piece NumberOfPoints=\"%ld\" NumberOfCells=\"%ld\">\n",
+            (long)numPoints,numCells);
     writePoints(g,f);
     writeCells(g,f);
     writePointData(g,f,tag,t);
diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index a302f7e..e254c7b 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -34,7 +34,8 @@ namespace agi {
         g->destroy(eitr);
         if(g->degree(vtx,t)!=j) {
           EnGPar_Error_Message("Process: %d Degree of vertex %ld does not match the "
-                               "number of edges adjacent to it.", PCU_Comm_Self(),vtx);
+                               "number of edges adjacent to it.", PCU_Comm_Self(),
+                               g->globalID(vtx));
           valid = false;
         }
       }
@@ -120,7 +121,8 @@ namespace agi {
         g->destroy(pitr);
         if(g->degree(edge)!=j) {
           EnGPar_Error_Message("Process: %d Degree of edge %ld does not match the "
-                               "number of vertices that it connects.", PCU_Comm_Self(),vtx);
+                               "number of vertices that it connects.", PCU_Comm_Self(),
+                               g->globalID(edge));
           valid = false;
         }
       }
@@ -131,12 +133,12 @@ namespace agi {
     GraphVertex* gv;
     while ((gv = g->iterate(g_itr))) {
       if(g->owner(gv)==PCU_Comm_Self()) {
-        EnGPar_Error_Message("Process %d: invalid ghost vertex, %d, that is owned by itself\n",
+        EnGPar_Error_Message("Process %d: invalid ghost vertex, %ld, that is owned by itself\n",
                              PCU_Comm_Self(),g->globalID(gv));
         valid = false;
       }
       if(g->owner(gv)>=PCU_Comm_Peers()) {
-        EnGPar_Error_Message("Process %d: ghost vertex, %d, is owned by a process that does "
+        EnGPar_Error_Message("Process %d: ghost vertex, %ld, is owned by a process that does "
                              "not exist\n", PCU_Comm_Self(),g->globalID(gv));
                              
         valid = false;
-- 
2.43.0


From d1248db24605373cf5d596cc048363ffa022d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 24/44] fix: log messages are not printed onto themselves

---
 agi/agiConstruct.cpp                        | 21 ++++--------
 partition/Diffusive/src/engpar_balancer.cpp | 36 ++++++++++-----------
 2 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 309c6d5..9a354a1 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -50,11 +50,8 @@ namespace agi {
                               std::unordered_map<gid_t,part_t>& owns) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructGraph: ");
-      if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
-      else
-        sprintf(message,"%sCreating traditional graph\n",message);
+      sprintf(message,"constructGraph: Creating %s\n",
+              isHG ? "hypergraph" : "traditional graph");
       EnGPar_Log_Function(message);
     }
 
@@ -72,11 +69,8 @@ namespace agi {
                               std::vector<wgt_t>& wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
-      if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
-      else
-        sprintf(message,"%sCreating traditional graph\n",message);
+      sprintf(message,"constructVerts: Creating %s\n",
+              isHG ? "hypergraph" : "traditional graph");
       EnGPar_Log_Function(message);
     }
     destroyData();
@@ -107,11 +101,8 @@ namespace agi {
                               gid_t* verts, wgt_t* wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
-      if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
-      else
-        sprintf(message,"%sCreating traditional graph\n",message);
+      sprintf(message,"constructVerts: Creating %s\n",
+              isHG ? "hypergraph" : "traditional graph");
       EnGPar_Log_Function(message);
     }
     destroyData();
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 72b554b..63fa59c 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -4,6 +4,7 @@
 #include <engpar_metrics.h>
 #include <engpar_support.h>
 #include <agiMigration.h>
+#include <string>
 namespace {
   void printMigrationStats(agi::MigrationTimers* migrTime) {
     double maxSetup = migrTime->processMax("setup");
@@ -195,29 +196,28 @@ namespace engpar {
   void Balancer::balance() {
     DiffusiveInput* inp = dynamic_cast<DiffusiveInput*>(input);
     if (EnGPar_Is_Log_Open()) {
-      char message[1000];
-      sprintf(message,"balance() : \n");
+      std::string message = "balance() : \n";
       //Log the input parameters
-      sprintf(message,"%s priorities :",message);
+      message += " priorities :";
       for (unsigned int i=0;i<inp->priorities.size();i++)
-        sprintf(message,"%s %d",message,inp->priorities[i]);
-      sprintf(message,"%s\n",message);
+        message += " " + std::to_string(inp->priorities[i]);
+      message += "\n";
       if (inp->tolerances.size()>0) {
-        sprintf(message,"%s tolerances :",message);
+        message += " tolerances :";
         for (unsigned int i=0;i<inp->tolerances.size();i++)
-          sprintf(message,"%s %f",message,inp->tolerances[i]);
-        sprintf(message,"%s\n",message);
+          message += " " + std::to_string(inp->tolerances[i]);
+        message += "\n";
       }
-      sprintf(message,"%s maxIterations : %d\n",message,inp->maxIterations);
-      sprintf(message,"%s maxIterationsPerType : %d\n",
-              message,inp->maxIterationsPerType);
-      sprintf(message,"%s step_factor : %f\n",message,inp->step_factor);
-      sprintf(message,"%s sides_edge_type : %d\n",message,inp->sides_edge_type);
-      sprintf(message,"%s selection_edge_type : %d\n",
-              message,inp->selection_edge_type);
-      sprintf(message,"%s countGhosts : %d\n",message,inp->countGhosts);
-      
-      EnGPar_Log_Function(message);
+      message += " maxIterations : " + std::to_string(inp->maxIterations) + "\n";
+      message += " maxIterationsPerType : "
+        + std::to_string(inp->maxIterationsPerType) + "\n";
+      message += " step_factor : " + std::to_string(inp->step_factor) + "\n";
+      message += " sides_edge_type : " + std::to_string(inp->sides_edge_type) + "\n";
+      message += " selection_edge_type : "
+        + std::to_string(inp->selection_edge_type) + "\n";
+      message += " countGhosts : " + std::to_string(inp->countGhosts) + "\n";
+
+      EnGPar_Log_Function(&message[0]);
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
-- 
2.43.0


From 2120786c529aca233696e67144a242c47fa6d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 25/44] fix: text buffers hold names of any length and all edge
 types

---
 agi/agiConstruct.cpp                          |  3 +-
 agi/agiIO.cpp                                 | 32 ++++++-------------
 agi/agiVTK.cpp                                | 18 ++++-------
 interfaces/binGraph.cpp                       |  5 ++-
 partition/Diffusive/src/engpar_balancer.cpp   |  4 +--
 .../Diffusive/src/engpar_weightBalancer.cpp   |  4 +--
 partition/engpar.cpp                          |  9 +++---
 support/engpar_message.cpp                    |  6 ++--
 8 files changed, 32 insertions(+), 49 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 9a354a1..94fb9ef 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -581,7 +581,8 @@ namespace agi {
     else
       EnGPar_Status_Message("N-graph Status\n");
     EnGPar_Status_Message("Vertices: %ld\n", numGlobalVtxs());
-    char edges[100];
+    //Room for the label, a type and a count for every edge type
+    char edges[8+MAX_TYPES*40];
     int n = sprintf(edges,"Edges: ");
     char* temp = edges + n;
     for (etype t = 0; t < numEdgeTypes(); t++) {
diff --git a/agi/agiIO.cpp b/agi/agiIO.cpp
index 52d0310..6b9a634 100644
--- a/agi/agiIO.cpp
+++ b/agi/agiIO.cpp
@@ -2,7 +2,7 @@
 #include "ngraph.h"
 #include <stdio.h>
 #include <PCU.h>
-#include <cstring>
+#include <string>
 #include <sys/stat.h>
 #include <pcu_io.h>
 namespace agi {
@@ -124,25 +124,14 @@ namespace agi {
   //Recursive mkdir function modified from here:
   //http://nion.modprobe.de/blog/archives/357-Recursive-directory-creation.html
   void mkdir_r(const char *dir) {
-    char tmp[256];
-    char *p = NULL;
-    size_t len;
-    snprintf(tmp, sizeof(tmp),"%s",dir);
-    len = strlen(tmp);
-    if(tmp[len - 1] == '/')
-      tmp[len - 1] = 0;
-    for(p = tmp + 1; *p; p++)
-      if(*p == '/') {
-        *p = 0;
-        mkdir(tmp, S_IRWXU);
-        *p = '/';
-      }
+    std::string path(dir);
+    for (size_t p = path.find('/',1); p != std::string::npos; p = path.find('/',p+1))
+      mkdir(path.substr(0,p).c_str(), S_IRWXU);
   }
   void Ngraph::saveToFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    mkdir_r(filename);
-    struct pcu_file* file = pcu_fopen(filename,true,false);
+    std::string filename = std::string(prefix) + "_" + std::to_string(PCU_Comm_Self()) + ".bgd";
+    mkdir_r(filename.c_str());
+    struct pcu_file* file = pcu_fopen(filename.c_str(),true,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for saving: %s#.bgd\n",prefix);
       throw 1;
@@ -223,9 +212,8 @@ namespace agi {
   }
 
   void Ngraph::loadFromFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    struct pcu_file* file = pcu_fopen(filename,false,false);
+    std::string filename = std::string(prefix) + "_" + std::to_string(PCU_Comm_Self()) + ".bgd";
+    struct pcu_file* file = pcu_fopen(filename.c_str(),false,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for loading: %s#.bgd",prefix);
       throw 1;
@@ -257,7 +245,7 @@ namespace agi {
 
     if (EnGPar_Check_Verbosity(0) && !PCU_Comm_Self()) {
       //TODO: Add timing info
-      EnGPar_Status_Message("Loaded graph %s.\n",filename);
+      EnGPar_Status_Message("Loaded graph %s.\n",filename.c_str());
       printStats();
     }
   }
diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index 7d1792d..d35d160 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -1,6 +1,7 @@
 #include "ngraph.h"
 #include <PCU.h>
 #include "agi.h"
+#include <string>
 namespace agi {
 
   void writePoints(Ngraph* g,FILE* f) {
@@ -249,11 +250,8 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
-    char filename[256];
-    for (int i=0;i<PCU_Comm_Peers();i++) {
-      sprintf(filename,"%s%d.vtu",prefix,i);
-      fprintf(pf,"<Piece Source=\"%s\"/>\n",filename);
-    }
+    for (int i=0;i<PCU_Comm_Peers();i++)
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
   }
   
   void writePVTU(FILE* pf,const char* prefix, agi::Ngraph* g, GraphTag* tag, etype t) {
@@ -267,9 +265,8 @@ namespace agi {
 
   }
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
-    char filename[256];
-    sprintf(filename,"%s%d.vtu",prefix,PCU_Comm_Self());
-    FILE* f = fopen(filename,"w");
+    std::string filename = std::string(prefix) + std::to_string(PCU_Comm_Self()) + ".vtu";
+    FILE* f = fopen(filename.c_str(),"w");
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -287,9 +284,8 @@ namespace agi {
     fclose(f);
 
     if (!PCU_Comm_Self()) {
-      char pfilename[256];
-      sprintf(pfilename,"%s.pvtu",prefix);
-      FILE* pf = fopen(pfilename,"w");
+      std::string pfilename = std::string(prefix) + ".pvtu";
+      FILE* pf = fopen(pfilename.c_str(),"w");
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 13da0c8..8e2b551 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -16,9 +16,8 @@ namespace agi {
 
 Ngraph* createBinGraph(char* graph_file,char* part_file) {
   if (EnGPar_Is_Log_Open()) {
-    char message[256];
-    sprintf(message,"createBinGraph %s\n",graph_file);
-    EnGPar_Log_Function(message);
+    std::string message = std::string("createBinGraph ") + graph_file + "\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 63fa59c..02efe4f 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -172,7 +172,7 @@ namespace engpar {
       delete plan;
     
     if (verbosity >= 1) {
-      char buffer[100];
+      char buffer[256];
       getImbalances(input->g,buffer);
       if (!PCU_Comm_Self()) {
         EnGPar_Status_Message("  Step took %f seconds\n",stepTime);
@@ -263,7 +263,7 @@ namespace engpar {
       delete sides;
 
       if (verbosity >= 0) {
-        char buffer[100];
+        char buffer[256];
         getImbalances(input->g, buffer, inp->countGhosts);
         if (!PCU_Comm_Self()) {
           if (target_dimension == -1)
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 70bcb83..55e996b 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -96,7 +96,7 @@ namespace engpar {
       delete plan;
     }
     if (verbosity >= 1) {
-      char buffer[100];
+      char buffer[256];
       getImbalances(input->g, buffer);
       if (!PCU_Comm_Self()) {
         EnGPar_Status_Message("  Step took %f seconds\n",stepTime);
@@ -180,7 +180,7 @@ namespace engpar {
     //Set side tolerance to arbitrarily high number such that it will be ignored in targeting
     sideTol = std::numeric_limits<int>::max();
 
-    char buffer[100];
+    char buffer[256];
     getImbalances(input->g,buffer);
     if (!PCU_Comm_Self() && verbosity >= 0)
       EnGPar_Status_Message("Starting weight diffusion with imbalance: %s\n",buffer);
diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..f11f0de 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -3,6 +3,7 @@
 #include "Diffusive/src/engpar_sides.h"
 #include <engpar_support.h>
 #include <engpar_metrics.h>
+#include <string>
 
 namespace engpar {
 
@@ -100,8 +101,8 @@ namespace engpar {
       for (int i=0;i<5+g->numEdgeTypes();i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
-      char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      std::string label = std::string("PARTITION ") + name;
+      const char* prefix = label.c_str();
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -112,8 +113,8 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
+        std::string edge_label = label + ": Edges type " + std::to_string(i);
+        const char* edge_name = edge_label.c_str();
         EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
         EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
diff --git a/support/engpar_message.cpp b/support/engpar_message.cpp
index 943a7e5..13f2963 100644
--- a/support/engpar_message.cpp
+++ b/support/engpar_message.cpp
@@ -50,10 +50,8 @@ void EnGPar_Debug_Close() {
 
 
 void EnGPar_Print(FILE* f, const char* prefix, const char* format, va_list args) {
-  //Dangerous if someone prints a string of size > 1024
-  char buffer[1024];
-  sprintf(buffer,"%s %s",prefix,format);
-  vfprintf(f,buffer,args);
+  std::string buffer = std::string(prefix) + " " + format;
+  vfprintf(f,buffer.c_str(),args);
 
 }
 
-- 
2.43.0


From 75e3b813bfe8a72bc8bb0c252489ad6c17ce5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 26/44] fix: cavities of a hundred vertices or more no longer
 write past an unused count

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 248462b..d0f7aeb 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -28,16 +28,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From 4eb19c61c356731dfc77390f059f3b3debb7a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 27/44] fix: weights of more than five completed dimensions fit
 in the received record

---
 partition/Diffusive/src/engpar_selector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index d0f7aeb..d3b8ab3 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -1,6 +1,7 @@
 #include "engpar_selector.h"
 #include <engpar_metrics.h>
 #include <set>
+#include <vector>
 #include <PCU.h>
 #include <agiMigration.h>
 
@@ -269,11 +270,10 @@ namespace engpar {
   }
   struct Migr {
     Migr(int i) :
-      id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+      id(i) {}
+    void addWeight(double w) {ws.push_back(w);}
     int id;
-    double ws[5];
-    int edge_types;
+    std::vector<double> ws;
   };
   struct CompareMigr {
     //sort by part first completed edge type weights
-- 
2.43.0


From 8c6a9ac4f3a263dd025cb6659fbaa6b4c9ef1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 28/44] fix: averages are computed for exactly the reported
 values

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index f11f0de..26fc6aa 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -98,7 +98,7 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
       std::string label = std::string("PARTITION ") + name;
-- 
2.43.0


From 95edb87657c18b0cbd6e903dd2e4216e6207b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 29/44] fix: originalOwner of a ghost vertex reads past the
 owned vertices

---
 agi/agiVertex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 6d0b9b1..25463c3 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -72,8 +72,8 @@ int Ngraph::owner(GraphVertex* vtx) const {
 part_t Ngraph::originalOwner(GraphVertex* vtx) const {
   assert(original_owners);
   lid_t index = fromPtr(vtx);
-  if (index>=num_local_verts+num_ghost_verts) {
-    EnGPar_Error_Message("invalid vertex given to owner(vtx)\n");
+  if (index>=num_local_verts) {
+    EnGPar_Error_Message("invalid vertex given to originalOwner(vtx)\n");
     return -1;
   }
   return original_owners[index];
-- 
2.43.0


From e7e6372cd4032485c136ca3e24ad9318d5f96db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 30/44] fix: createDistanceQueue seeds no edge when there is
 none

---
 partition/Diffusive/src/engpar_queue.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index f5804a9..b828cba 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -256,8 +256,10 @@ namespace engpar {
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
     //If run in serial use edge 2 (or the last edge) for the seed
-    if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=pg->num_local_edges[t]>2 ? 2 : pg->num_local_edges[t]-1;
+    if (g->numGhostVtxs()==0) {
+      if (pg->num_local_edges[t]>0)
+        in1->seeds[in1->numSeeds++]=pg->num_local_edges[t]>2 ? 2 : pg->num_local_edges[t]-1;
+    }
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From 0ea1db5b95741253a3eb6ca56373528573f66e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 31/44] fix: weight migrated to a vertex was added to the
 part's last vertex

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From b631c7471ac9a6414149f9993af33aea109e295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 32/44] fix: setCoords and constructGhosts release what the
 graph held before

---
 agi/agiConstruct.cpp | 5 +++++
 agi/agiVertex.cpp    | 1 +
 2 files changed, 6 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 94fb9ef..a9ad1d9 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -364,6 +364,7 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    delete [] owners;
     owners = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
@@ -400,6 +401,9 @@ namespace agi {
     }
 
     //Create the ghost weights
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
     if (PCU_Comm_Peers() > 1)
       ghost_weights = createDoubleGhostTag(weightTag);
 
@@ -414,6 +418,7 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    delete [] owners;
     owners = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 25463c3..e65f57b 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -37,6 +37,7 @@ bool Ngraph::hasCoords() const {
 }
 
 void Ngraph::setCoords(coord_t* cs) {
+  delete [] local_coords;
   local_coords = new coord_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     for (int j=0;j<3;j++)
-- 
2.43.0


From d59b2959af03de48baadce52f2d6dbf4bf15ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 33/44] fix: binGraph releases the arrays it replaces, arrays
 as arrays

---
 interfaces/binGraph.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 8e2b551..f11d699 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -78,7 +78,7 @@ void binGraph::migrate(agi::EdgePartitionMap& map) {
   num_global_pins[0] = 2*num_global_edges[0];
   
   if (edge_list[0])
-    delete edge_list[0];
+    delete [] edge_list[0];
   edge_list[0] = new lid_t[num_local_edges[0]*2];
   std::copy(recv_edges.begin(),recv_edges.end(),edge_list[0]);
   vtx_mapping.clear();
@@ -101,6 +101,7 @@ void binGraph::migrate(agi::EdgePartitionMap& map) {
   PCU_Comm_Send();
   std::vector<part_t> owns;
   std::vector<gid_t> dups;
+  delete [] degree_list[SPLIT_TYPE];
   degree_list[SPLIT_TYPE] = new lid_t[num_local_verts+1];
   for (lid_t i=0;i<num_local_verts+1;++i)
     degree_list[SPLIT_TYPE][i]=0;
@@ -123,11 +124,14 @@ void binGraph::migrate(agi::EdgePartitionMap& map) {
   num_ghost_verts = dups.size();
   num_local_edges[SPLIT_TYPE] = dups.size();
 
+  delete [] ghost_unmap;
+  delete [] owners;
   ghost_unmap = new gid_t[dups.size()];
   owners = new part_t[dups.size()];
   lid_t* temp_counts = new lid_t[num_local_verts];
   memcpy(temp_counts, degree_list[SPLIT_TYPE], num_local_verts*sizeof(lid_t));
 
+  delete [] edge_list[SPLIT_TYPE];
   edge_list[SPLIT_TYPE] = new lid_t[dups.size()];
   
   for (unsigned int i=0;i<dups.size();i++) {
@@ -285,6 +289,8 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
     if (ranks[i] == PCU_Comm_Self())
       ++num_local_verts;
 
+  delete [] local_unmap;
+  delete [] local_weights;
   local_unmap = new gid_t[num_local_verts];
   local_weights = new wgt_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
@@ -308,6 +314,7 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   }
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
+  delete [] degree_list[t];
   degree_list[t] = new lid_t[num_local_verts+1];
   for (lid_t i = 0; i < num_local_verts+1; ++i)
     degree_list[t][i] = 0;
@@ -340,6 +347,10 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
         edge_list[t][i] = vtx_mapping[out];
     }
     num_ghost_verts = cur_label - num_local_verts;
+    delete [] ghost_unmap;
+    delete [] owners;
+    ghost_unmap = NULL;
+    owners = NULL;
     if (num_ghost_verts>0) {
       ghost_unmap = new gid_t[num_ghost_verts];
       owners = new int32_t[num_ghost_verts];
@@ -355,6 +366,9 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   }
 
   //Create the ghost weights
+  if (ghost_weights)
+    destroyTag(ghost_weights);
+  ghost_weights = NULL;
   if (PCU_Comm_Peers() > 1)
     ghost_weights = createDoubleGhostTag(weightTagBin);
 
-- 
2.43.0


From c264c49e78a30b5564f760244574140e21a0f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 34/44] fix: the iteration limits count the diffusion steps
 that are run

---
 partition/Diffusive/src/engpar_balancer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 02efe4f..cd28a3f 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -278,9 +278,12 @@ namespace engpar {
         EnGPar_Status_Message("Side Tolerance is: %d\n", sideTol);
 
       //Run diffusion
-      int rc;
-      while ((rc = runStep(tol)) == 0 && inner_steps++ < inp->maxIterationsPerType &&
-             step++ < inp->maxIterations);
+      int rc = 0;
+      while (inner_steps < inp->maxIterationsPerType && step < inp->maxIterations &&
+             (rc = runStep(tol)) == 0) {
+        inner_steps++;
+        step++;
+      }
 
       //Keep track of completed dimension for trim/cancel
       completed_dimensions.push_back(target_dimension);
-- 
2.43.0


From a5c3ee049e3199fdeac7b6c0c8b2d51a4a5ee6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 35/44] fix: report a step's imbalances with the ghosts the
 balancer counts

---
 partition/Diffusive/src/engpar_balancer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index cd28a3f..ed6b956 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -173,7 +173,7 @@ namespace engpar {
     
     if (verbosity >= 1) {
       char buffer[256];
-      getImbalances(input->g,buffer);
+      getImbalances(input->g,buffer,inp->countGhosts);
       if (!PCU_Comm_Self()) {
         EnGPar_Status_Message("  Step took %f seconds\n",stepTime);
         EnGPar_Status_Message("  Imbalances <v, e0, ...>: %s\n",buffer);
-- 
2.43.0


From 6a160b8f63033791c849f39a18c2aa25d367d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 36/44] fix: document the defaults DiffusiveInput actually has

---
 partition/Diffusive/engpar_diffusive_input.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/engpar_diffusive_input.h b/partition/Diffusive/engpar_diffusive_input.h
index 90d8a27..b38e4b5 100644
--- a/partition/Diffusive/engpar_diffusive_input.h
+++ b/partition/Diffusive/engpar_diffusive_input.h
@@ -66,13 +66,13 @@ namespace engpar {
 
     /** \brief If the distance based iteration queue should be used.
      *
-     * defaults to false (for now)
+     * defaults to true for hypergraphs and false for traditional graphs
      */
     bool useDistanceQueue;
 
     /** \brief Whether to use the push bfs or pull bfs.
      *
-     * defaults to false
+     * defaults to true
      */
     bool bfsPush;
 
-- 
2.43.0


From 18957d1ed6d785a644e5ca7a2298cbed1a0f4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 37/44] fix: skip cavities without peers when selecting
 disconnected parts

---
 partition/Diffusive/src/engpar_selector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index d3b8ab3..37fa848 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -230,7 +230,8 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers,in->selection_edge_type);
-      if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
+      if (!peers.empty() &&
+          isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
     }
-- 
2.43.0


From 8d87838a31696a12446f19e4d6b323a5df565c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 38/44] fix: skip edges without an owned vertex when selecting
 weight

---
 partition/Diffusive/src/engpar_weightSelector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/partition/Diffusive/src/engpar_weightSelector.cpp b/partition/Diffusive/src/engpar_weightSelector.cpp
index a0a6685..834b2cc 100644
--- a/partition/Diffusive/src/engpar_weightSelector.cpp
+++ b/partition/Diffusive/src/engpar_weightSelector.cpp
@@ -32,6 +32,8 @@ namespace engpar {
       //Create Cavity and peers
       Cavity cav;
       agi::GraphVertex* mine = getWeightCavity(in->g,q->get(itr),cav);
+      if (!mine) //This part owns no vertex of the edge
+        continue;
       wgt_t w = in->g->weight(mine) - vSending[mine];
       Cavity::iterator cav_itr;
       for (cav_itr = cav.begin(); cav_itr != cav.end(); ++cav_itr) {
-- 
2.43.0


From 8abfc506895ae236e661df8466fc405c7844f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 39/44] fix: report VTK files that cannot be opened

---
 agi/agiVTK.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index d35d160..c00985a 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -2,6 +2,7 @@
 #include <PCU.h>
 #include "agi.h"
 #include <string>
+#include <engpar_support.h>
 namespace agi {
 
   void writePoints(Ngraph* g,FILE* f) {
@@ -267,6 +268,10 @@ namespace agi {
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
     std::string filename = std::string(prefix) + std::to_string(PCU_Comm_Self()) + ".vtu";
     FILE* f = fopen(filename.c_str(),"w");
+    if (!f) {
+      EnGPar_Error_Message("Could not open file for writing: %s\n",filename.c_str());
+      throw 1;
+    }
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -286,6 +291,10 @@ namespace agi {
     if (!PCU_Comm_Self()) {
       std::string pfilename = std::string(prefix) + ".pvtu";
       FILE* pf = fopen(pfilename.c_str(),"w");
+      if (!pf) {
+        EnGPar_Error_Message("Could not open file for writing: %s\n",pfilename.c_str());
+        throw 1;
+      }
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
-- 
2.43.0


From 66d6b272931e5a1294aa5af2aa80ff163fe90f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:13 +0000
Subject: [PATCH 40/44] fix: give ghosts their weights when constructed from
 arrays

---
 agi/agiConstruct.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index a9ad1d9..ee1e565 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -457,6 +457,14 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 1f797e47a74f97fa7da8daf92924fcc528b718d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:53 +0000
Subject: [PATCH 41/44] fix: refuse part files that cannot be read or are too
 short

---
 interfaces/binGraph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index f11d699..c31710d 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -192,7 +192,10 @@ int binGraph::read_ranks(char* filename, int32_t* ranks) {
 
   for (int64_t i = 0; i < num_global_verts; ++i)
   {
-    getline(infile, line);
+    if (!getline(infile, line)) {
+      fprintf(stderr, "Cannot read a part for each vertex from %s\n", filename);
+      throw 1;
+    }
     ranks[i] = (int32_t)atoi(line.c_str());
   }
   infile.close();
-- 
2.43.0


From 21ee5b477108e3fe7a2fe1e4805eb9fac95af836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:17 +0000
Subject: [PATCH 42/44] fix: file each migration timer under its own position

---
 agi/agiMigrationTimers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..a841ff6 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,7 +15,7 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = names.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
-- 
2.43.0


From 706839895dce09d31f6bf6664876eb9159c4bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:03 +0000
Subject: [PATCH 43/44] fix: removing an edge type gives up its derived
 adjacency

---
 agi/agiConstruct.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee1e565..e1d4174 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -500,6 +500,14 @@ namespace agi {
     edge_mapping[t].clear();
     delete [] edge_unmap[t];
     edge_unmap[t] = NULL;
+    delete [] vev_offsets[t];
+    vev_offsets[t] = NULL;
+    delete [] vev_lists[t];
+    vev_lists[t] = NULL;
+    delete [] eve_offsets[t];
+    eve_offsets[t] = NULL;
+    delete [] eve_lists[t];
+    eve_lists[t] = NULL;
     if (t==num_types-1)
       num_types--;
     if (EnGPar_Is_Log_Open()) {
-- 
2.43.0


From 5c1de93e3b4b84a6feb6db91b8b33aa0310b867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:03 +0000
Subject: [PATCH 44/44] fix: a cleared weight migration has size zero

---
 agi/agiWeightMigration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiWeightMigration.cpp b/agi/agiWeightMigration.cpp
index 3f12858..013a449 100644
--- a/agi/agiWeightMigration.cpp
+++ b/agi/agiWeightMigration.cpp
@@ -30,6 +30,7 @@ namespace agi {
 
   void WeightMigration::clear() {
     sending.clear();
+    s = 0;
   }
 
   WeightMigration::iterator WeightMigration::begin() const {
-- 
2.43.0

