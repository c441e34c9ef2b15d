From 99af344f4f7d16931752128044061f519768f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 01/59] fix: level sets of a full chain (as many levels as
 nodes) were reported as cyclic

---
 src/hdagg/hdagg.cpp        |  6 ++++--
 utils/sparse_inspector.cpp | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b46dfd8..cca85a9 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -39,9 +39,11 @@ namespace HDAGG
                 }
             }
             cur_level++; //all nodes_ with zero indegree are processed.
-            //assert(cur_level < n);
-            if (cur_level >= n)
+            if (cur_level > static_cast<int>(n)) {
+                delete[] inDegree;
+                delete[] visited;
                 return -1; // The input graph has a cycle
+            }
                 levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
                 while (inDegree[begin] == 1) // Why? Behrooz
                     {
diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 90dc525..f899acf 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -33,9 +33,11 @@ namespace sym_lib {
     }
    }
    cur_level++;//all nodes_ with zero indegree are processed.
-   //assert(cur_level < n);
-   if (cur_level >= n)
+   if (cur_level > static_cast<int>(n)) {
+    delete[]inDegree;
+    delete[]visited;
     return -1; // The input graph has a cycle
+   }
    levelPtr[cur_level] = cur_levelCol;
    while (inDegree[begin] == 1) {
     begin++;
@@ -980,9 +982,11 @@ namespace sym_lib {
        }
      }
      cur_level++; //all nodes_ with zero indegree are processed.
-     //assert(cur_level < n);
-     if (cur_level >= n)
+     if (cur_level > static_cast<int>(n)) {
+       delete[] inDegree;
+       delete[] visited;
        return -1; // The input graph has a cycle
+     }
      levelPtr[cur_level] = cur_levelCol; // The levelPtr starts from level 1. Behrooz
      while (inDegree[begin] == 1) // Why? Behrooz
      {
-- 
2.43.0


From c586f775d1e8a147d5d1286dabc1362a12ff481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:41 +0000
Subject: [PATCH 02/59] fix: tree level set wrote past its level counters for a
 single-node tree

---
 utils/sparse_inspector.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index f899acf..553891d 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -489,7 +489,6 @@ namespace sym_lib {
    levelPtr[k] = levelPtr[k-1] + level_cnt[k-1];
    level_cnt[k-1] = 0;
   }
-  level_cnt[1]=0;
   for (int l = 0; l < n; ++l) {
    auto lev = node2level[l];
    if(!lev) continue;
-- 
2.43.0


From 0af179e23eb38f9275f1077ab82b8c9d9d0ce134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:56 +0000
Subject: [PATCH 03/59] fix: partition pointer needs n+1 entries when every
 node is its own partition

---
 src/lbc_blocked.cpp | 2 +-
 src/lbc_csc.cpp     | 2 +-
 src/lbc_csc_dag.cpp | 4 ++--
 src/lbc_tree.cpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 8b009f4..a325f2c 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -44,7 +44,7 @@ namespace sym_lib {
   int clusterCnt = 0;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
   int *inDegree = new int[n];
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 0213797..9d5a4fd 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -37,7 +37,7 @@ namespace sym_lib {
   std::vector<std::vector<int>> newLeveledParList, mergedLeveledParList;
   int originalHeight = 0;
   finaLevelPtr = new int[n + 1];
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 
   finaLevelPtr[0] = 0;
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 8361691..6ced3aa 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -334,7 +334,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  finaLevelPtr[0] = 0;
 
@@ -419,7 +419,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  int clusterCnt = 0;
  int originalHeight = 0;
  finaLevelPtr = new int[n + 1];
- finalPartPtr = new int[n]();
+ finalPartPtr = new int[n + 1]();
  finalNodePtr = new int[n];
  int *inDegree = new int[n];
  finaLevelPtr[0] = 0;
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index fc8552a..41ade6b 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -18,7 +18,7 @@ namespace sym_lib {
                               int minLevelDist,
                               int divRate,
                               double *nodeCost) {
-  finalPartPtr = new int[n]();
+  finalPartPtr = new int[n + 1]();
   finalNodePtr = new int[n];
 //  auto *nodeColWidth = new int[n]();
   partNo = 0;
-- 
2.43.0


From f899913e2eff95c6678750727e5cdb16aa6bfd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:56 +0000
Subject: [PATCH 04/59] fix: last height partition ended one level past the
 level set

---
 src/lbc_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 4b97bb0..30d71a8 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -253,7 +253,7 @@ namespace sym_lib{
    partition2Level[++lClusterCnt] = tmp;
    tmp += divRate;
   }
-  partition2Level[++lClusterCnt] = originalHeight + 1;
+  partition2Level[++lClusterCnt] = originalHeight;
   innerPartsSize.push_back(1);//The last partition has one element TODO is this true??
   delete[]accuSlackGroups;
   return lClusterCnt;
@@ -312,7 +312,7 @@ namespace sym_lib{
     }
    }
    if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight + 1;
+       partition2Level[++lClusterCnt] = originalHeight;
        innerPartsSize.push_back(1);//The last partition has one element
    }
   } else {
@@ -336,7 +336,7 @@ namespace sym_lib{
     preLevelCut = levelCut;
     levelCut = 0; // starting from the root
    }
-   partition2Level[++lClusterCnt] = originalHeight + 1;
+   partition2Level[++lClusterCnt] = originalHeight;
    innerPartsSize.push_back(1);//The last partition has one element
   }
   delete[]accuSlackGroups;
-- 
2.43.0


From 892c3b7b4be964b0ff6d2a88acb6b10bd88f4ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 05/59] fix: block level sets read past the in-degree array and
 leaked

---
 utils/sparse_inspector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 553891d..0154e3b 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -162,9 +162,9 @@ namespace sym_lib {
    assert((size_t) cur_levelCol >= 0);
    assert((size_t) cur_level <= blockNo);
    levelPtr[cur_level] = cur_levelCol;
-   while (inDegree[begin] == 1)
+   while (begin <= end && inDegree[begin] == 1)
     begin++;
-   while (inDegree[end] == 1 && begin <= end)
+   while (begin <= end && inDegree[end] == 1)
     end--;
    //Updating degrees after removing the nodes_
    for (int l = levelPtr[cur_level - 1]; l < levelPtr[cur_level]; ++l) {
@@ -179,6 +179,7 @@ namespace sym_lib {
   }
   delete[]inDegree;
   delete[]visited;
+  delete[]node2Level;
   return cur_level;//return number of levels
  }
 
-- 
2.43.0


From 1e43c2ab9347ec3943e0bc67420c90940428acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:46 +0000
Subject: [PATCH 06/59] fix: blocked LBC lost a component when merging aliased
 ones

---
 src/lbc_blocked.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index a325f2c..30ca081 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -124,8 +124,10 @@ namespace sym_lib {
 
      isCC = needAliased.size() == 0;
      if (!isCC) {//There are some intersection between found CCs.
-      for (int j = 1; j < needAliased.size(); ++j) {//the first is min
+      for (int j = 0; j < needAliased.size(); ++j) {
        int tn = node2partition[needAliased[j]];
+       if (tn == minAliasedPar)
+        continue;
        for (int i = 0; i < n; ++i) {
         //Replace all needAliased node with their min part number.
         if (node2partition[i] == tn) {
@@ -133,7 +135,6 @@ namespace sym_lib {
         }
        }
       }
-      cc -= (needAliased.size() - 1);//TODO not sure
       needAliased.erase(needAliased.begin(), needAliased.end());
       //Set the nodes in the current cluster
       for (int i = stackStart; i < n; ++i) {
-- 
2.43.0


From 973fb3734bc6de09391c18b68cb46952d6e59791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 07/59] fix: post-order traversal read the top of an empty
 stack

---
 src/hdagg/hdagg.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index cca85a9..b7b0c58 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -116,7 +116,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
@@ -259,7 +261,9 @@ namespace HDAGG
                     post_order[n - 1 - order_cnt] = stack.back();
                     order_cnt++;
                     stack.pop_back();
-                    head = stack.back();
+                    if(!stack.empty()){
+                        head = stack.back();
+                    }
                 }
             }
         }
-- 
2.43.0


From 4a765c3c9529c3d42fa91073d445d31a6027f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 08/59] fix: bins with loads above INT_MAX were never
 considered lightest

---
 src/lbc_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 30d71a8..d4c3dd9 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -5,6 +5,7 @@
 #include <cstdint>
 #include <cassert>
 #include <climits>
+#include <limits>
 #include <algorithm>
 #include <iostream>
 #include "aggregation/lbc_utils.h"
@@ -147,7 +148,7 @@ namespace sym_lib{
 
 
  int find_min(double *cost, int size) {
-  double min = INT_MAX;
+  double min = std::numeric_limits<double>::max();
   int minBin = 0;
   for (int i = 0; i < size; ++i) {
    if (cost[i] < min) {
-- 
2.43.0


From aec107367db98dfe5287d843e35b381e889098f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:19 +0000
Subject: [PATCH 09/59] fix: tree groupings numbered the groups so that their
 DAG was not lower triangular

---
 src/hdagg/hdagg.cpp | 120 ++++++++++++++++----------------------------
 1 file changed, 43 insertions(+), 77 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index b7b0c58..425a52d 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1388,6 +1388,7 @@ namespace HDAGG
         //Apply a traversal to this DAG and group sub-trees
         //All the nodes in each group should have outgoing edge of one except the root
         std::vector<bool> visited(n, false);
+        std::vector<int> tree_root(n, 0);//The root of the tree each node belongs to
         std::list<int> group_stack;
         ngroups = 1;
         if(!group_ptr.empty()){
@@ -1404,6 +1405,7 @@ namespace HDAGG
         while(!root_id.empty()){
             auto head = root_id.back();
             root_id.pop_back();
+            const int root = head;
             visited[head] = true;
             group_stack.push_back(head);
             if(group_ptr.back() != set_cnt){
@@ -1428,6 +1430,7 @@ namespace HDAGG
                     }
                 }
                 group_set[set_cnt++] = head;
+                tree_root[head] = root;
                 if(set_cnt - last_size == size_restriction){
                     group_ptr.push_back(set_cnt);
                     ngroups++;
@@ -1458,48 +1461,27 @@ namespace HDAGG
             assert(mark == true);
         }
         #endif
-        std::vector<int> group_id(n, 0);
-        std::vector<int> group_size(n + 1, 0);
-        //NOTE: We have to do these stuff so that the resulted DAG will be a lower triangular one
-        //Sort Groups and give each group a name based on the minimum of the ids inside a group
-        #pragma omp parallel for
+        //NOTE: The resulted DAG should be a lower triangular one. Edges leave a tree only from its root, which has
+        //the largest id of the tree, and inside a tree they only go from a later group to an earlier one.
+        //Don't sort inside the groups right now, it will be ordered at the end of coarsening.
+        std::vector<int> order(ngroups);
         for(int g = 0; g < ngroups; g++){
-            //Don't sort right now, it will be ordered at the end of coarsening.
-            //std::sort(group_set.data() + group_ptr[g], group_set.data() + group_ptr[g + 1]);
-            //Smallest id
-            int id = n;
-            for(int i = group_ptr[g]; i < group_ptr[g + 1]; i++){
-                int node = group_set[i];
-                if(node < id){
-                    id = node;
-                }
-            }
-            group_size[id + 1] = group_ptr[g + 1] - group_ptr[g];
-            for(int i = group_ptr[g]; i < group_ptr[g + 1]; i++){
-                int node = group_set[i];
-                group_id[node] = id;
-            }
+            order[g] = ngroups - 1 - g;
         }
+        std::stable_sort(order.begin(), order.end(), [&](int a, int b){
+            return tree_root[group_set[group_ptr[a]]] < tree_root[group_set[group_ptr[b]]];
+        });
 
-        //Sort the nodes based on their ids using counting sort
-        for(int i = 1; i < n; i++){
-            group_size[i + 1] += group_size[i];
+        std::vector<int> ordered_group_ptr(1, 0), ordered_group_set;
+        ordered_group_set.reserve(n);
+        for(auto & g: order){
+            ordered_group_set.insert(ordered_group_set.end(), group_set.begin() + group_ptr[g],
+                                     group_set.begin() + group_ptr[g + 1]);
+            ordered_group_ptr.push_back(ordered_group_set.size());
         }
 
-        group_ptr.clear();
-        group_ptr.push_back(0);
-        for(int i = 0; i < n; i++){
-            if(group_size[i + 1] != group_size[i]){
-                group_ptr.push_back(group_size[i + 1]);
-            }
-        }
-
-        std::vector<int> unordered_group_set(n);
-        for(int i = 0; i < n; i++){
-            unordered_group_set[group_size[group_id[group_set[i]]]++] = group_set[i];
-        }
-
-        group_set = unordered_group_set;
+        group_ptr = ordered_group_ptr;
+        group_set = ordered_group_set;
         return true;
     }
 
@@ -1539,6 +1521,7 @@ namespace HDAGG
         //Apply a traversal to this DAG and group sub-trees
         //All the nodes in each group should have outgoing edge of one except the root
         std::vector<bool> visited(n, false);
+        std::vector<int> tree_root(n, 0);//The root of the tree each node belongs to
         std::list<int> group_stack;
         ngroups = 1;
         if(!group_ptr.empty()){
@@ -1555,6 +1538,7 @@ namespace HDAGG
         while(!root_id.empty()){
             auto head = root_id.back();
             root_id.pop_back();
+            const int root = head;
             visited[head] = true;
             group_stack.push_back(head);
             if(group_ptr.back() != set_cnt){
@@ -1579,6 +1563,7 @@ namespace HDAGG
                     }
                 }
                 group_set[set_cnt++] = head;
+                tree_root[head] = root;
                 if(set_cnt - last_size == size_restriction){
                     group_ptr.push_back(set_cnt);
                     ngroups++;
@@ -1609,47 +1594,27 @@ namespace HDAGG
             assert(mark == true);
         }
         #endif
-        std::vector<int> group_id(n, 0);
-        std::vector<int> group_size(n + 1, 0);
-        //NOTE: We have to do these stuff so that the resulted DAG will be a lower triangular one
-        //Sort Groups and give each group a name based on the minimum of the ids inside a group
+        //NOTE: The resulted DAG should be a lower triangular one. Edges leave a tree only from its root, which has
+        //the largest id of the tree, and inside a tree they only go from a later group to an earlier one.
+        //Don't sort inside the groups right now, it will be ordered at the end of coarsening.
+        std::vector<int> order(ngroups);
         for(int g = 0; g < ngroups; g++){
-            //Don't sort right now, it will be ordered at the end of coarsening.
-//            std::sort(group_set.data() + group_ptr[g], group_set.data() + group_ptr[g + 1]);
-            //Smallest id
-            int id = n;
-            for(int i = group_ptr[g]; i < group_ptr[g + 1]; i++){
-                int node = group_set[i];
-                if(node < id){
-                    id = node;
-                }
-            }
-            group_size[id + 1] = group_ptr[g + 1] - group_ptr[g];
-            for(int i = group_ptr[g]; i < group_ptr[g + 1]; i++){
-                int node = group_set[i];
-                group_id[node] = id;
-            }
+            order[g] = ngroups - 1 - g;
         }
+        std::stable_sort(order.begin(), order.end(), [&](int a, int b){
+            return tree_root[group_set[group_ptr[a]]] < tree_root[group_set[group_ptr[b]]];
+        });
 
-        //Sort the nodes based on their ids using counting sort
-        for(int i = 1; i < n; i++){
-            group_size[i + 1] += group_size[i];
+        std::vector<int> ordered_group_ptr(1, 0), ordered_group_set;
+        ordered_group_set.reserve(n);
+        for(auto & g: order){
+            ordered_group_set.insert(ordered_group_set.end(), group_set.begin() + group_ptr[g],
+                                     group_set.begin() + group_ptr[g + 1]);
+            ordered_group_ptr.push_back(ordered_group_set.size());
         }
 
-        group_ptr.clear();
-        group_ptr.push_back(0);
-        for(int i = 0; i < n; i++){
-            if(group_size[i + 1] != group_size[i]){
-                group_ptr.push_back(group_size[i + 1]);
-            }
-        }
-
-        std::vector<int> unordered_group_set(n);
-        for(int i = 0; i < n; i++){
-            unordered_group_set[group_size[group_id[group_set[i]]]++] = group_set[i];
-        }
-
-        group_set = unordered_group_set;
+        group_ptr = ordered_group_ptr;
+        group_set = ordered_group_set;
         return true;
     }
 
@@ -1902,15 +1867,16 @@ namespace HDAGG
         std::vector<int> group_id(n, 0);
         std::vector<int> group_size(n + 1, 0);
         //NOTE: We have to do these stuff so that the resulted DAG will be a lower triangular one
-        //Sort Groups and give each group a name based on the minimum of the ids inside a group
+        //Sort Groups and give each group a name based on the maximum of the ids inside a group: edges only leave
+        //a group from its root, which is its largest id
         for(int g = 0; g < ngroups; g++){
             //Don't sort right now, it will be ordered at the end of coarsening.
             //            std::sort(group_set.data() + group_ptr[g], group_set.data() + group_ptr[g + 1]);
-            //Smallest id
-            int id = n;
+            //Largest id
+            int id = 0;
             for(int i = group_ptr[g]; i < group_ptr[g + 1]; i++){
                 int node = group_set[i];
-                if(node < id){
+                if(node > id){
                     id = node;
                 }
             }
-- 
2.43.0


From e7cd6ed2d939dddd200290b410b1e6b6f208076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:41 +0000
Subject: [PATCH 10/59] fix: post-order chain grouping read past the index
 array at a sink

---
 src/hdagg/hdagg.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 425a52d..7437b07 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -138,7 +138,8 @@ namespace HDAGG
             if(i < n - 1){
                 next = post_order[i + 1];
                 in_edges = in_degree[next];
-                child = DAG_set[DAG_ptr[curr] + 1];//TODO: Ugly coding
+                bool has_child = DAG_ptr[curr + 1] - DAG_ptr[curr] > 1;
+                child = has_child ? DAG_set[DAG_ptr[curr] + 1] : -1;//TODO: Ugly coding
             } else {
                 in_edges = 1;
                 child = next;
-- 
2.43.0


From 9edba638777ac24fe6809fcf810e9fec950720de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:41 +0000
Subject: [PATCH 11/59] fix: first-off-diagonal groupings indexed their arrays
 out of bounds

---
 src/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group.cpp b/src/group.cpp
index c21f26d..40f3cbd 100644
--- a/src/group.cpp
+++ b/src/group.cpp
@@ -88,7 +88,7 @@ namespace sym_lib
 
         int tcurIdx = curIdx+1;
         int len=0;
-        while (child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
+        while (tcurIdx<ncol && child[tcurIdx]==-1 && !visited[tcurIdx] && len<ncol/12)
         {
          visited[tcurIdx] = true;
          next[tcurIdx-1]=tcurIdx;
@@ -221,7 +221,7 @@ namespace sym_lib
        visited[curIdx] = true;
        int chIdx = child[curIdx];
 
-       while ((chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
+       while (chIdx!=-1 && (chIdx-curIdx==1 || rCnt[chIdx]) && !visited[chIdx] )
        {
         visited[chIdx]=true;
         pre[chIdx] = curIdx;
-- 
2.43.0


From 3f446b8dbffaff49a0dd79131df45a280fc9faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:18 +0000
Subject: [PATCH 12/59] fix: clique sparsification used thread id 1 without
 OpenMP and overflowed

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 7437b07..d1a6ea8 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2011,7 +2011,7 @@ namespace HDAGG
           int tid = omp_get_thread_num();
 #else
           int bins =1;
-       int tid=1;
+       int tid=0;
 #endif
                 int start_col = (n / bins) * tid;
                 int end_col = (n / bins) * (tid + 1);
-- 
2.43.0


From 37b17f550c8081125008bace0da3934228b0fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 13/59] fix: csr_to_csc swapped the dimensions and dereferenced
 pattern values

Rectangular matrices overflowed the row counters.
---
 utils/sparse_utilities.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 002a33d..5f9a837 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -106,11 +106,11 @@ namespace sym_lib {
     }
 
     CSC* csr_to_csc(CSR *A) {
-     CSC *B = new CSC(A->m,A->n,A->nnz,NULLPNTR,NULLPNTR,A->stype);
-     B->pre_alloc = false;
-     B->is_pattern = false;
-     int st = csc_to_csr(A->m, A->n, A->p, A->i, A->x, B->p, B->i, B->x);
-     B->nnz = B->p[B->n];
+     // A read as CSC is the transpose, so its rows are the columns of A
+     CSC At(A->n, A->m, A->nnz, A->p, A->i, A->x);
+     At.is_pattern = A->is_pattern;
+     CSC *B = transpose_general(&At);
+     B->stype = A->stype;
      return B;
     }
 
-- 
2.43.0


From 3acbf4718a31ffa21c0d6effb5c2c36f6ce3e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 14/59] fix: make_half declared the upper half as lower

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 5f9a837..8578843 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -222,7 +222,7 @@ namespace sym_lib {
       }
       Bp[i+1] = nnz_cnt;
      }
-     B->stype = -1;
+     B->stype = lower ? -1 : 1;
      return B;
     }
 
-- 
2.43.0


From 17d89aae653c70a2edbde30015a10f1148684615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 15/59] fix: pattern matrices lost their flag or had missing
 values read

make_full and copy_sparse dereferenced the absent values, and
transpose_symmetric turned a pattern into explicit zeros.
---
 utils/sparse_utilities.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 8578843..747e8a7 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -232,7 +232,7 @@ namespace sym_lib {
       return nullptr;
      }
 
-     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2 );
+     CSC *Afull = new CSC(A->m, A->n, A->nnz * 2, A->is_pattern);
      auto ind = new int[A->n]();
 
      for(size_t i = 0; i < A->n; i++) {
@@ -254,12 +254,14 @@ namespace sym_lib {
        int row = A->i[p];
        int index = Afull->p[i] + ind[i];
        Afull->i[index] = row;
-       Afull->x[index] = A->x[p];
+       if(!A->is_pattern)
+        Afull->x[index] = A->x[p];
        ind[i]++;
        if(row != i) {
         index = Afull->p[row] + ind[row];
         Afull->i[index] = i;
-        Afull->x[index] = A->x[p];
+        if(!A->is_pattern)
+         Afull->x[index] = A->x[p];
         ind[row]++;
        }
       }
@@ -290,7 +292,7 @@ namespace sym_lib {
      n = A->m;
      permute = (Perm != NULLPNTR);
      upper = (A->stype > 0);
-     F = new CSC(A->n,A->m,A->nnz);
+     F = new CSC(A->n,A->m,A->nnz,A->is_pattern);
      Fp = F->p;        /* size A->nrow+1, row pointers of F */
      Fi = F->i;
      Fx = F->x;
@@ -504,13 +506,14 @@ namespace sym_lib {
 
 
     CSC *copy_sparse(CSC *A){
-     CSC *clone = new CSC(A->m,A->n,A->nnz);
+     CSC *clone = new CSC(A->m,A->n,A->nnz,A->is_pattern);
      for (int i = 0; i < A->n+1; ++i) {
       clone->p[i] = A->p[i];
      }
      for (int j = 0; j < A->nnz; ++j) {
       clone->i[j] = A->i[j];
-      clone->x[j] = A->x[j];
+      if(!A->is_pattern)
+       clone->x[j] = A->x[j];
      }
      clone->stype = A->stype;
      return clone;
-- 
2.43.0


From 676ac157115acb16cd34d2914ffc84f126ffce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 16/59] fix: transpose_symmetric accepted n as a permutation
 entry and overflowed

---
 utils/sparse_utilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 747e8a7..5c9c8b1 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -308,7 +308,9 @@ namespace sym_lib {
       }
       for (k = 0; k < n; k++) {
        i = Perm[k];
-       if (i < 0 || i > n || Pinv[i] != EMPTY) {
+       if (i < 0 || i >= n || Pinv[i] != EMPTY) {
+        delete []Iwork;
+        delete F;
         return NULLPNTR;
        }
        Pinv[i] = k;
-- 
2.43.0


From b64d0d77d5ebc2088de0524fa184955a76109a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 17/59] fix: copy_from_to did not copy the pointer array

---
 utils/sparse_utilities.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 5c9c8b1..17f1d25 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -523,22 +523,24 @@ namespace sym_lib {
 
     void copy_from_to(CSR *src, CSR *dst){
      for (int i = 0; i < src->m; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->m] = src->p[src->m];
     }
 
     void copy_from_to(CSC *src, CSC *dst){
      for (int i = 0; i < src->n; ++i) {
-      dst->p[i] = dst->p[i];
+      dst->p[i] = src->p[i];
       for (int j = src->p[i]; j < src->p[i + 1]; ++j) {
        dst->i[j] = src->i[j];
        dst->x[j] = src->x[j];
       }
      }
+     dst->p[src->n] = src->p[src->n];
     }
 
     void copy_vector_dense(size_t beg, size_t end, const double *src, double *dst) {
-- 
2.43.0


From eba22618715786c1a6f42b725179a81f055128ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 18/59] fix: convert_to_one_based dropped the values

---
 utils/sparse_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 1a2dcf9..89a2c20 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -119,7 +119,7 @@ namespace sym_lib {
   else
    for (int j = 0; j < A->nnz; ++j) {
     A_one->i[j] = A->i[j]+1;
-    A_one->x[j] = A_one->x[j];
+    A_one->x[j] = A->x[j];
    }
 
   for (int k = 0; k < A->n + 1; ++k) {
-- 
2.43.0


From 451bcb8596fc33bf672581ba7a2e30542b1984e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 19/59] fix: CSC wrapping constructor left stype uninitialised

---
 include/aggregation/def.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aggregation/def.h b/include/aggregation/def.h
index 96d2188..8c91332 100644
--- a/include/aggregation/def.h
+++ b/include/aggregation/def.h
@@ -150,6 +150,7 @@ namespace sym_lib {
    p = Ap;
    i = Ai;
    x = Ax;
+   stype = 0;
   }
 
   CSC(size_t M, size_t N, size_t NNZ, int *Ap, int *Ai, int st) {
-- 
2.43.0


From dea82ce146eb72cb594869c50173e65cb8ddabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 20/59] fix: tridiag overflowed for n=1 and declared a full
 valued matrix a lower pattern

---
 utils/sparse_utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 17f1d25..a41de14 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -115,9 +115,9 @@ namespace sym_lib {
     }
 
     CSC *tridiag(int n, double a0, double a1, double a2) {
+     if(n == 1)
+      return diagonal(n, a1);
      CSC *A = new CSC(n, n, 3 * n - 2);
-     A->is_pattern = true;
-     A->stype = -1;
 
      int ind = 0;
      A->p[0] = 0;
-- 
2.43.0


From 2cc839706acb1739b942e51888ae5edc0e117bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:31 +0000
Subject: [PATCH 21/59] fix: verify_csc_diagonal looked past empty columns

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index a41de14..316c644 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -94,7 +94,7 @@ namespace sym_lib {
     bool verify_csc_diagonal(CSC* A)
     {
      for (int i = 0; i < A->n; ++i) {
-      if(A->i[A->p[i]] != i){
+      if(A->p[i] == A->p[i+1] || A->i[A->p[i]] != i){
        return false;
       }
      }
-- 
2.43.0


From 9e13f0204c7bd605e2db7ac383500bd160ad99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:15 +0000
Subject: [PATCH 22/59] fix: read_mtx misread empty columns, unsorted entries
 and pattern files

Columns were numbered consecutively as they appeared, so an empty column or
entries in another order gave a wrong matrix; pattern files lost a token per
entry; entries that did not parse were ignored; the file was not closed.
---
 utils/sparse_io.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 89a2c20..6a94ec9 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -32,35 +32,26 @@ namespace sym_lib {
   A->stype = mm_is_symmetric(mcode) ? -1 : 0;
 
   // Copy matrix data into COO format
+  bool is_pattern = mm_is_pattern(mcode);
+  std::vector<triplet> triplet_vec;
   for (int i = 0; i < nnz; i++) {
-   if (fscanf(mf, "%d %d %lg\n", (A->i) + i, &J[i], (A->x) + i) == EOF) {
+   triplet tmp;
+   tmp.val = 1.0;
+   int expected = is_pattern ? 2 : 3;
+   int got = is_pattern ? fscanf(mf, "%d %d", &tmp.row, &tmp.col)
+                        : fscanf(mf, "%d %d %lg", &tmp.row, &tmp.col, &tmp.val);
+   if (got != expected) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
     delete (A);
     return nullptr;
    }
-   (A->i)[i]--;
-   J[i]--;
-  }
-  int i = 0, j;
-  int index = 0, cur;
-  for (; i < nnz; i++) {
-   A->p[index] = i;
-   cur = J[i];
-   for (j = i + 1; j < nnz; j++) {
-    if (J[j] != cur)
-     break;
-    else
-     i++;
-   }
-   index += 1;
+   tmp.row--;
+   tmp.col--;
+   triplet_vec.push_back(tmp);
   }
-  A->p[n] = nnz;
-  delete[]J;
-
-  A->m = m;
-  A->n = n;
-  A->nnz = nnz;
+  fclose(mf);
+  compress_triplets_to_csc(triplet_vec, A, false);
   return A;
  }
 
-- 
2.43.0


From efc8ec2c5a2c8e6ef440aaf64f66e288167b4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:15 +0000
Subject: [PATCH 23/59] fix: inserting diagonals in empty columns overran the
 matrix

The index and value arrays had no room for the inserted entries, and columns
beyond the last row got a row index out of range.
---
 utils/sparse_io.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 6a94ec9..221093a 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -377,7 +377,7 @@ namespace sym_lib {
   }
   A->p[0] = 0;
   for (auto j = 0; j < A->n; ++j) {
-   if(count[j] == 0 && add_diags){ // insert zero diag for empty cols
+   if(count[j] == 0 && add_diags && j < A->m){ // insert zero diag for empty cols
     triplet tmp; tmp.col = tmp.row = j; tmp.val=0;
     triplet_vec.insert(triplet_vec.begin()+A->p[j], tmp);
     A->p[j+1] = A->p[j] + 1;
@@ -386,6 +386,13 @@ namespace sym_lib {
    }
   }
   delete []count;
+  if(triplet_vec.size() > A->nnz){ // make room for the inserted diagonals
+   delete []A->i;
+   delete []A->x;
+   A->nnz = triplet_vec.size();
+   A->i = new int[A->nnz]();
+   A->x = new double[A->nnz]();
+  }
   for (auto k = 0; k < A->nnz; ++k) {
    A->i[k] = triplet_vec[k].row;
    A->x[k] = triplet_vec[k].val;
-- 
2.43.0


From 1a7c587c1eaf00d6e3fe6223281a3552d78910e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 24/59] fix: read_mtx ended the process or read out of range on
 malformed files

Missing files and sizes called exit, indices were not checked, complex, array
and skew-symmetric files were read as something else. All are now reported
like the other failures, by returning no matrix.
---
 utils/sparse_io.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 221093a..7afae47 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -15,7 +15,10 @@ namespace sym_lib {
 
  CSC *read_mtx(std::string fname) {
   FILE *mf = fopen(fname.c_str(), "r");
-  if (!mf) exit(1);
+  if (!mf) {
+   std::cerr << "Failed to open " << fname << "\n";
+   return nullptr;
+  }
 
   MM_typecode mcode;
   if (mm_read_banner(mf, &mcode) != 0) {
@@ -23,13 +26,20 @@ namespace sym_lib {
    fclose(mf);
    return nullptr;
   }
+  if (!mm_is_coordinate(mcode) || mm_is_complex(mcode) ||
+      !(mm_is_general(mcode) || mm_is_symmetric(mcode))) {
+   std::cerr << "Unsupported matrix type\n";
+   fclose(mf);
+   return nullptr;
+  }
 
   int m, n, nnz;
-  if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0) exit(1);
-  CSC *A = new CSC(m, n, nnz);
-  int *J = new int[nnz]();
-
-  A->stype = mm_is_symmetric(mcode) ? -1 : 0;
+  if (mm_read_mtx_crd_size(mf, &m, &n, &nnz) != 0 || m <= 0 || n <= 0 ||
+      nnz < 0) {
+   std::cerr << "Error processing matrix dimensions\n";
+   fclose(mf);
+   return nullptr;
+  }
 
   // Copy matrix data into COO format
   bool is_pattern = mm_is_pattern(mcode);
@@ -40,10 +50,10 @@ namespace sym_lib {
    int expected = is_pattern ? 2 : 3;
    int got = is_pattern ? fscanf(mf, "%d %d", &tmp.row, &tmp.col)
                         : fscanf(mf, "%d %d %lg", &tmp.row, &tmp.col, &tmp.val);
-   if (got != expected) {
+   if (got != expected || tmp.row < 1 || tmp.row > m || tmp.col < 1 ||
+       tmp.col > n) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
-    delete (A);
     return nullptr;
    }
    tmp.row--;
@@ -51,6 +61,8 @@ namespace sym_lib {
    triplet_vec.push_back(tmp);
   }
   fclose(mf);
+  CSC *A = new CSC(m, n, nnz);
+  A->stype = mm_is_symmetric(mcode) ? -1 : 0;
   compress_triplets_to_csc(triplet_vec, A, false);
   return A;
  }
-- 
2.43.0


From 69e1944bcec42fc9592f2830b41ba834fc0db459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 25/59] fix: Matrix Market banner tokens overflowed and bad
 size lines looped forever

---
 utils/external/mmio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index ace5551..923c701 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -101,7 +101,7 @@ namespace sym_lib {
   if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL)
    return MM_PREMATURE_EOF;
 
-  if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
              storage_scheme) != 5)
    return MM_PREMATURE_EOF;
 
@@ -190,7 +190,7 @@ namespace sym_lib {
   else
    do {
     num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read != 3) return MM_PREMATURE_EOF;
    } while (num_items_read != 3);
 
   return 0;
@@ -216,7 +216,7 @@ namespace sym_lib {
   else /* we have a blank line */
    do {
     num_items_read = fscanf(f, "%d %d", M, N);
-    if (num_items_read == EOF) return MM_PREMATURE_EOF;
+    if (num_items_read != 2) return MM_PREMATURE_EOF;
    } while (num_items_read != 2);
 
   return 0;
-- 
2.43.0


From d0b5a85b4a863fd255bff42240248bf2835e7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 26/59] fix: Matrix Market readers accepted truncated bodies
 and indices out of range

They led to writes outside the count array; impossible dimensions crashed.
---
 utils/sparse_io.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 7afae47..89a644d 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Kazem on 10/10/19.
 //
+#include <climits>
 #include <iostream>
 #include <sstream>
 #include <vector>
@@ -334,7 +335,10 @@ namespace sym_lib {
    if (!(issDim >> n_row >> n_col)){
     throw mtx_header_error("Unknown", "The matrix dimension is missing");
    }
-   n_nnz = n_row*n_col;
+   n_nnz = (size_t)n_row*n_col;
+  }
+  if(n_row <= 0 || n_col <= 0 || n_nnz > (size_t)INT_MAX){
+   throw mtx_header_error("Unknown", "The matrix dimension is out of range");
   }
  }
 
@@ -370,6 +374,8 @@ namespace sym_lib {
       inFile >> tmp.val;
     else
       tmp.val = 1.0;
+   if(!inFile)
+    throw mtx_error("Unknown", "Failed to read a matrix entry");
    if(!zero_indexing){
     tmp.col--; tmp.row--;
    }
@@ -425,8 +431,12 @@ namespace sym_lib {
   bool read_val = true;
   if(arith == PATTERN)
     read_val = false;
-  A = new CSC(m,n,nnz,false, shape2int(shape));
   read_triplets_real(in_file, nnz, triplet_vec, read_val);
+  for (const auto &t : triplet_vec) {
+   if(t.row < 0 || t.row >= m || t.col < 0 || t.col >= n)
+    throw mtx_error("Unknown", "Matrix entry outside the matrix dimension");
+  }
+  A = new CSC(m,n,nnz,false, shape2int(shape));
   compress_triplets_to_csc(triplet_vec, A, insert_diag);
   A->nnz = A->p[n]; // if insert diag is true, it will be different.
   //print_csc(A->n, A->p, A->i, A->x);
@@ -444,7 +454,11 @@ namespace sym_lib {
    throw mtx_format_error("ARRAY", format_str(mtx_format));
   A = new Dense(m, n, 1);//
   for (int i = 0; i < m * n; i++) {//writing from file row by row
-   in_file >> A->a[i];
+   if(!(in_file >> A->a[i])){
+    delete A;
+    A = NULLPNTR;
+    throw mtx_error("Unknown", "Failed to read a matrix entry");
+   }
   }
   std::ofstream file;
   //print_dense(A->row, A->col, A->lda, A->a);
@@ -468,6 +482,8 @@ namespace sym_lib {
                           e.what());
    } catch (const mtx_header_error& e) {
     throw mtx_header_error(filename, e.what());
+   } catch (const mtx_error& e) {
+    throw mtx_error(filename, e.what());
    }
   } else {
    fin.close();
-- 
2.43.0


From a35840056a6751e13cd242b9e7484f04aaf6e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 27/59] fix: read_header looped forever on a file that ends
 inside its comments

---
 utils/sparse_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 89a644d..8a7ef1d 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -323,7 +323,8 @@ namespace sym_lib {
   }
   while (!line.compare(0,1,"%"))
   {
-   std::getline(inFile, line);
+   if(!std::getline(inFile, line))
+    throw mtx_header_error("Unknown", "The matrix dimension is missing");
    trim(line);
   }
   std::istringstream issDim(line);
-- 
2.43.0


From 6a99f4bb2ef59601c5ad6de0d94a9911ac880b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:11 +0000
Subject: [PATCH 28/59] fix: read_mtx wrapped indices that do not fit an int
 into the matrix

---
 utils/sparse_io.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utils/sparse_io.cpp b/utils/sparse_io.cpp
index 8a7ef1d..acc3331 100644
--- a/utils/sparse_io.cpp
+++ b/utils/sparse_io.cpp
@@ -46,19 +46,20 @@ namespace sym_lib {
   bool is_pattern = mm_is_pattern(mcode);
   std::vector<triplet> triplet_vec;
   for (int i = 0; i < nnz; i++) {
-   triplet tmp;
-   tmp.val = 1.0;
+   long row, col; // wide enough to tell an out of range index
+   double val = 1.0;
    int expected = is_pattern ? 2 : 3;
-   int got = is_pattern ? fscanf(mf, "%d %d", &tmp.row, &tmp.col)
-                        : fscanf(mf, "%d %d %lg", &tmp.row, &tmp.col, &tmp.val);
-   if (got != expected || tmp.row < 1 || tmp.row > m || tmp.col < 1 ||
-       tmp.col > n) {
+   int got = is_pattern ? fscanf(mf, "%ld %ld", &row, &col)
+                        : fscanf(mf, "%ld %ld %lg", &row, &col, &val);
+   if (got != expected || row < 1 || row > m || col < 1 || col > n) {
     std::cerr << "Failed to load matrix at " << i + 1 << "th element\n";
     fclose(mf);
     return nullptr;
    }
-   tmp.row--;
-   tmp.col--;
+   triplet tmp;
+   tmp.row = row - 1;
+   tmp.col = col - 1;
+   tmp.val = val;
    triplet_vec.push_back(tmp);
   }
   fclose(mf);
-- 
2.43.0


From acb3e2c475ef9ccaa36616292e8b212c5049c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:50 +0000
Subject: [PATCH 29/59] fix: tree_to_csc declared n-1 nonzeros for a forest

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 316c644..896f032 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -155,7 +155,7 @@ namespace sym_lib {
     CSC* tree_to_csc(int n, int *tree){
      int *Ai = new int[n](), *Ap = new int[n+1](), *cnt = new int[n]();
      populate_children(n, tree, Ap, Ai, cnt);
-     CSC *T = new CSC(n,n,n-1,Ap,Ai,0);
+     CSC *T = new CSC(n,n,Ap[n],Ap,Ai,0);
      delete []cnt;
      return T;
     }
-- 
2.43.0


From 33158fc2724306a0db9c8d51272ee1a9b4d436d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:50 +0000
Subject: [PATCH 30/59] fix: computeNoneZeroPatternOfRowK unmarked the stale
 last stack entry

---
 src/hdagg/hdagg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index d1a6ea8..1446ee6 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -1345,7 +1345,7 @@ namespace HDAGG
             }
             while(len > 0) s[--top] = s[--len];
         }
-        for(int p = top; p < n; p++){
+        for(int p = top; p < n - 1; p++){
             w[s[p]] = false;
         }
         w[k] = false;
-- 
2.43.0


From a5a6fe01abd97444999f3ded210349e2fb8ec0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:32 +0000
Subject: [PATCH 31/59] fix: symbolic factorisation freed the permutation array
 with the wrong delete

---
 utils/lfactor_creation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/lfactor_creation.cpp b/utils/lfactor_creation.cpp
index 588200a..f674077 100644
--- a/utils/lfactor_creation.cpp
+++ b/utils/lfactor_creation.cpp
@@ -395,7 +395,7 @@ namespace sym_lib{
   At_ord = transpose_symmetric(A, perm_metis);
   A_ord = transpose_symmetric(At_ord, NULLPNTR);
   std::copy(perm_metis,perm_metis+n, perm);
-  delete perm_metis;
+  delete []perm_metis;
   delete A_full;
 #else
   for(int i=0; i<n; i++) perm[i] = i; // no permutation
-- 
2.43.0


From 42d69b1354c56b07c7d2bae9a9d6a604e404f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:01 +0000
Subject: [PATCH 32/59] fix: METIS got bogus edges for the diagonal of
 half-stored matrices

---
 utils/metis_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3982474..83b37bc 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -48,21 +48,21 @@ namespace sym_lib {
   }
 
   perm = new int[A->n]();
-  int nnzFull = 2 * A->nnz - A->n;
   auto Afullp = new idx_t[A->n + 1]();
-  auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[A->n]();
   for (size_t i = 0; i < A->n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
   for (size_t i = 0; i < A->n; i++)
    Afullp[i + 1] = Afullp[i] + ind[i];
+  auto Afulli = new idx_t[Afullp[A->n]]();
 
   for (size_t i = 0; i < A->n; i++)
    ind[i] = 0;
@@ -173,21 +173,21 @@ namespace sym_lib {
   part = new int[A->n]();
 
   int n = A->n;
-  int nnzFull = 2 * A->nnz - A->n;
   auto Afullp = new idx_t[n + 1]();
-  auto Afulli = new idx_t[nnzFull]();
   auto ind = new int[n]();
   for (size_t i = 0; i < n; i++) {
    for (size_t p = A->p[i]; p < A->p[i + 1]; p++) {
     int row = A->i[p];
-    ind[i]++;
-    if (row != i)
+    if (row != i) {
+     ind[i]++;
      ind[row]++;
+    }
    }
   }
   Afullp[0] = 0;
   for (size_t i = 0; i < n; i++)
    Afullp[i + 1] = Afullp[i] + ind[i];
+  auto Afulli = new idx_t[Afullp[n]]();
 
   for (size_t i = 0; i < n; i++)
    ind[i] = 0;
-- 
2.43.0


From 643e68544284c0c45fea25d53501e965610e3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:01 +0000
Subject: [PATCH 33/59] fix: partitioning into a single part crashed in METIS

---
 utils/metis_interface.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 83b37bc..3f615b6 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -222,9 +222,11 @@ namespace sym_lib {
    weigt[i] = 1;
   }
 
-  idx_t retMet = METIS_PartGraphKway(&ncolIDXT, &nconIDX, Afullp, Afulli, nullptr,
-                                     nullptr, nullptr, &nparsIDX, nullptr,
-                                     nullptr, options1, &objvalIDX, partIDX);
+  idx_t retMet = METIS_OK;
+  if (k > 1) // METIS divides by zero for one part
+   retMet = METIS_PartGraphKway(&ncolIDXT, &nconIDX, Afullp, Afulli, nullptr,
+                                nullptr, nullptr, &nparsIDX, nullptr,
+                                nullptr, options1, &objvalIDX, partIDX);
   assert(retMet == METIS_OK);
   for (int i = 0; i < n; ++i)
    part[i] = partIDX[i];
@@ -292,9 +294,11 @@ namespace sym_lib {
    }
   }
 */
-  idx_t retMet = METIS_PartGraphKway(&ncolIDXT, &nconIDX, Ap, Ai, weigt,
-                                     nullptr, nullptr, &nparsIDX, nullptr,
-                                     nullptr, options1, &objvalIDX, partIDX);
+  idx_t retMet = METIS_OK;
+  if (k > 1) // METIS divides by zero for one part
+   retMet = METIS_PartGraphKway(&ncolIDXT, &nconIDX, Ap, Ai, weigt,
+                                nullptr, nullptr, &nparsIDX, nullptr,
+                                nullptr, options1, &objvalIDX, partIDX);
   assert(retMet == METIS_OK);
   int min_p_no = n; // it happens to start from a value other than zero, maybe a bug.
   for (int i = 0; i < n; ++i) {
-- 
2.43.0


From 9095878680644396ba3f25a96ddc1edcff159974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:01 +0000
Subject: [PATCH 34/59] fix: coarsened partitioning mapped the parts to the
 wrong rows and overflowed

---
 utils/metis_interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/metis_interface.cpp b/utils/metis_interface.cpp
index 3f615b6..d063303 100644
--- a/utils/metis_interface.cpp
+++ b/utils/metis_interface.cpp
@@ -327,7 +327,7 @@ namespace sym_lib {
   CSC *tmp = coarsen_k_times(A->n, A->nnz, A->p, A->i, A->stype, coarsen);
   int *part_cors;
  // t.start_timer();
-  if(A->stype < 0){
+  if(A->stype != 0){
    metis_partition_symmetric(tmp, part_cors, k);
   } else{
    metis_partition_general(tmp, part_cors, k);
@@ -336,14 +336,14 @@ namespace sym_lib {
   part = new int[A->n]();
   for (int i = 0; i < tmp->n; ++i) {
    int i2p = part_cors[i];
-   int bnd = i+coarsen; // std::max<int>(i + coarsen, A->n);
-   for (int j = i; j < bnd; ++j) {
+   int bnd = std::min<int>((i + 1) * coarsen, A->n);
+   for (int j = i * coarsen; j < bnd; ++j) {
     part[j] = i2p;
    }
   }
   //t.measure_elapsed_time();
   //t.print_t_array();
-  delete part_cors;
+  delete []part_cors;
   delete tmp;
   return 0;
  }
-- 
2.43.0


From eee582640e2def569bde20caecbd41ea31f74a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 35/59] fix: block graph of a supernodal matrix overflowed with
 edges to blocks that do not exist

---
 utils/BCSCMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index ed835ee..8dd29a2 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -276,9 +276,6 @@ namespace sym_lib {
     inplace[temp[k]] = false;
    count = 0;
 
-   Ai[i] = j + nodes;
-   Ap[p]++;
-   i++;
    p++;
   }
 
-- 
2.43.0


From 201ffcd76d3d546b938b47ef14c25070ee90b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:36 +0000
Subject: [PATCH 36/59] fix: schedule statistics counted with thread id 1 in a
 buffer for one thread

---
 example/sptrsv_src/executor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/example/sptrsv_src/executor.cpp b/example/sptrsv_src/executor.cpp
index a15fce1..d146dd5 100644
--- a/example/sptrsv_src/executor.cpp
+++ b/example/sptrsv_src/executor.cpp
@@ -124,7 +124,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
         int t_cost=0;
         int lidx = levelSet[li];
@@ -180,7 +180,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
          int i = partition[k1];
@@ -232,7 +232,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 1;
+        int tidx = 0;
 #endif
 
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
-- 
2.43.0


From 382515a95d025e3134ab5db68327526c7f022b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:56 +0000
Subject: [PATCH 37/59] fix: costComputation wrote past an empty cost vector

---
 src/hdagg/hdagg.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index 1446ee6..cf66482 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -2233,10 +2233,8 @@ namespace HDAGG
     void costComputation(int nodes, const int* CSC_Lp, const int* CSC_Li, const int* CSR_Lp, const int* CSR_Li,
                          Kernel kernel, const int* group_ptr, const int* group_set, bool grouped,
                          std::vector<double>& cost){
-        if(!cost.empty()){
-            cost.clear();
-            cost.resize(nodes, 0);
-        }
+        cost.clear();
+        cost.resize(nodes, 0);
         if(kernel == SpTrSv_LL || kernel == SpTrSv_RL){
             const int* Lp;
             if(kernel == SpTrSv_LL){
-- 
2.43.0


From 33fba3679ed5c6669565f15dc1ed5a6057f15557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:47 +0000
Subject: [PATCH 38/59] fix: partition_by_weight left the remaining elements
 out of the last part

---
 utils/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 427cb57..214abc1 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -76,6 +76,7 @@ namespace sym_lib{
    }
    indices[i+1] = j;
   }
+  indices[n_parts] = n; // anything that remains goes to the last part
   if(!target_weight)
    delete []even_weight;
   return indices;
-- 
2.43.0


From 7a424f75f804124e01f047ab8e93ad5a4100cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:49 +0000
Subject: [PATCH 39/59] fix: merge_DAGs_with_partial_order counted one-to-one
 edges it does not add

---
 utils/sparse_utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index 896f032..b01bfe8 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -881,7 +881,6 @@ namespace sym_lib {
   for(int i = 0; i < ngraphs-1; i++){
    nnz += DGps[i][n];
   }
-  nnz += (ngraphs-1) * n;
   CSC *merged_graph = new CSC(n*ngraphs,n*ngraphs,nnz, true);
 
 /** allocate new graph space **/
-- 
2.43.0


From 3f7c800fb5d00fe40b9d44312b22d2ffbc108481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:49 +0000
Subject: [PATCH 40/59] fix: joint level set left out third-matrix nodes
 without a dependence

---
 utils/sparse_inspector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index 0154e3b..a16fa1a 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -652,6 +652,11 @@ namespace sym_lib {
     queue.push(supernodes[i]);
     inqueue[supernodes[i]] = true;
    }
+   // nodes of C that depend on nothing
+   if (degrees[supernodes[i] + n] == 0) {
+    queue.push(supernodes[i] + n);
+    inqueue[supernodes[i] + n] = true;
+   }
   }
 
   int cur_level = 0;
-- 
2.43.0


From 5b7d4fdd5938f8715bf38a34c164ff802e332bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:19 +0000
Subject: [PATCH 41/59] fix: fused graph of solve, product, solve saw only the
 first row of each product block

---
 utils/sparse_inspector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/sparse_inspector.cpp b/utils/sparse_inspector.cpp
index a16fa1a..bc44743 100644
--- a/utils/sparse_inspector.cpp
+++ b/utils/sparse_inspector.cpp
@@ -782,7 +782,7 @@ namespace sym_lib {
   // Count # nnz in B
   for (int i = 0; i < nodes; i++) {
    for (int r = 0; r < nB->nrows[i]; r++) {
-    int row = supers[nB->i[nB->p[i]]];
+    int row = supers[nB->i[nB->p[i] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
@@ -846,7 +846,7 @@ namespace sym_lib {
    Mi[i] = j + nodes;
    i++;
    for (int r = 0; r < nB->nrows[j]; r++) {
-    int row = supers[nB->i[nB->p[j]]];
+    int row = supers[nB->i[nB->p[j] + r]];
     if (!inplace[row]) {
      inplace[row] = true;
      temp[count] = row;
-- 
2.43.0


From 347fb12cc36b63672fa9ea767b45ef675bca9141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:26 +0000
Subject: [PATCH 42/59] fix: blocked storage read past the indices after the
 last entry of a column

---
 utils/BCSCMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/BCSCMatrix.cpp b/utils/BCSCMatrix.cpp
index 8dd29a2..792b1af 100644
--- a/utils/BCSCMatrix.cpp
+++ b/utils/BCSCMatrix.cpp
@@ -202,7 +202,7 @@ namespace sym_lib {
     for (p = 0; p < temp_cnt; p++) {
      int row_i = tempvec[p];
      M->i[counter] = row_i;
-     if (row_i == Ai[index] && index < Ap[j + 1]) {
+     if (index < Ap[j + 1] && row_i == Ai[index]) {
       M->x[counter] = Ax[index];
       index++;
      } else {
-- 
2.43.0


From 1a1d87ce5394ab986fb52efd4b663ddbcdd213ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:01 +0000
Subject: [PATCH 43/59] fix: get_tree_height_efficient left out the weight of
 the leaf

---
 utils/sparse_utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_utilities.cpp b/utils/sparse_utilities.cpp
index b01bfe8..9274afe 100644
--- a/utils/sparse_utilities.cpp
+++ b/utils/sparse_utilities.cpp
@@ -722,7 +722,7 @@ namespace sym_lib {
   auto *touch = new int[n]();
   for (int i = 0; i < n; ++i) {
    if (nChild1[i] == 0) {
-    int node = i; level = 0;
+    int node = i; level = weight == NULLPNTR ? 0 : weight[i];
     while (tree[node] >= 0) {
      node = tree[node];
      if (weight == NULLPNTR)
-- 
2.43.0


From e4d60fbb3fb99442196be85f41db3a67e94d5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 44/59] fix: mult_size_t returned the wrapped product on
 overflow

---
 utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.cpp b/utils/utils.cpp
index 214abc1..0f73fa3 100644
--- a/utils/utils.cpp
+++ b/utils/utils.cpp
@@ -38,7 +38,7 @@ namespace sym_lib{
     (*ok) = (*ok) && (p >= a);
    }
    k = k / 2;
-   if (!k) return (p);
+   if (!k) return ((*ok) ? p : 0);
    s = a + a;
    (*ok) = (*ok) && (s >= a);
    a = s;
-- 
2.43.0


From e7941b67f34c5f13d1c8b9d8b74872503a1ffce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 45/59] fix: comparison with a scalar took NaN for equal

---
 include/aggregation/test_utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index 0c2ad31..d2b43d2 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,6 +47,8 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
+   if(std::isnan(vec[i]) || std::isnan(val))
+    return false;
    if(std::abs(vec[i] - val) > eps)
     return false;
   }
-- 
2.43.0


From a4da087ff7015b3a3a8aeac576c01c6aa8c99fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 46/59] fix: matrix comparison ignored row counts and NaN and
 read values of patterns

---
 utils/test_utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index 68f3d49..af2e9f1 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -71,7 +71,8 @@ namespace sym_lib{
  }
 
  bool is_equal(CSC *A, CSC *B, double eps){
-  if(A->n != B->n || A->nnz != B->nnz){
+  if(A->m != B->m || A->n != B->n || A->nnz != B->nnz ||
+     A->is_pattern != B->is_pattern){
    return false;
   }
   for (int j = 0; j < A->n+1; ++j) {
@@ -82,7 +83,11 @@ namespace sym_lib{
    if(A->i[i] != B->i[i])
     return false;
   }
+  if(A->is_pattern)
+   return true; // no values to compare
   for (int i = 0; i < A->nnz; ++i) {
+   if(std::isnan(A->x[i]) || std::isnan(B->x[i]))
+    return false;
    if(std::abs(A->x[i] -B->x[i]) > eps)
     return false;
   }
-- 
2.43.0


From 88e7454462cc3d2ce60f072b25edfddc9daf6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 47/59] Revert "fix: matrix comparison ignored row counts and
 NaN and read values of patterns"

This reverts commit a4da087ff7015b3a3a8aeac576c01c6aa8c99fbd.
---
 utils/test_utils.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/utils/test_utils.cpp b/utils/test_utils.cpp
index af2e9f1..68f3d49 100644
--- a/utils/test_utils.cpp
+++ b/utils/test_utils.cpp
@@ -71,8 +71,7 @@ namespace sym_lib{
  }
 
  bool is_equal(CSC *A, CSC *B, double eps){
-  if(A->m != B->m || A->n != B->n || A->nnz != B->nnz ||
-     A->is_pattern != B->is_pattern){
+  if(A->n != B->n || A->nnz != B->nnz){
    return false;
   }
   for (int j = 0; j < A->n+1; ++j) {
@@ -83,11 +82,7 @@ namespace sym_lib{
    if(A->i[i] != B->i[i])
     return false;
   }
-  if(A->is_pattern)
-   return true; // no values to compare
   for (int i = 0; i < A->nnz; ++i) {
-   if(std::isnan(A->x[i]) || std::isnan(B->x[i]))
-    return false;
    if(std::abs(A->x[i] -B->x[i]) > eps)
     return false;
   }
-- 
2.43.0


From 6b54c11aaef32ef26ebd1f93a5643720a8891199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 48/59] Revert "fix: comparison with a scalar took NaN for
 equal"

This reverts commit e7941b67f34c5f13d1c8b9d8b74872503a1ffce8.
---
 include/aggregation/test_utils.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/aggregation/test_utils.h b/include/aggregation/test_utils.h
index d2b43d2..0c2ad31 100644
--- a/include/aggregation/test_utils.h
+++ b/include/aggregation/test_utils.h
@@ -47,8 +47,6 @@ namespace sym_lib{
  template<class type>
  bool is_equal(int n, const type* vec, type val, double eps=1e-8){
   for (int i = 0; i < n; ++i) {
-   if(std::isnan(vec[i]) || std::isnan(val))
-    return false;
    if(std::abs(vec[i] - val) > eps)
     return false;
   }
-- 
2.43.0


From 247c0a4127fdb90cf58571cffa132e19f0b5b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 49/59] Revert "fix: schedule statistics counted with thread id
 1 in a buffer for one thread"

This reverts commit 201ffcd76d3d546b938b47ef14c25070ee90b358.
---
 example/sptrsv_src/executor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/example/sptrsv_src/executor.cpp b/example/sptrsv_src/executor.cpp
index d146dd5..a15fce1 100644
--- a/example/sptrsv_src/executor.cpp
+++ b/example/sptrsv_src/executor.cpp
@@ -124,7 +124,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
         int t_cost=0;
         int lidx = levelSet[li];
@@ -180,7 +180,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
          int i = partition[k1];
@@ -232,7 +232,7 @@ namespace sym_lib
 #ifdef ENABLE_OPENMP
         int tidx = omp_get_thread_num();
 #else
-        int tidx = 0;
+        int tidx = 1;
 #endif
 
         for (int k1 = par_ptr[j1]; k1 < par_ptr[j1 + 1]; ++k1) {
-- 
2.43.0


From 34f597c1115c5375479085425893cc64b481d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 50/59] fix: LBC packed the components of a level by costs left
 from earlier levels

---
 include/aggregation/lbc_utils.h | 12 ++++++++++++
 src/lbc_blocked.cpp             |  2 ++
 src/lbc_csc.cpp                 |  2 ++
 src/lbc_csc_dag.cpp             |  4 ++++
 src/lbc_tree.cpp                |  2 ++
 src/lbc_utils.cpp               | 12 ++++++++++++
 6 files changed, 34 insertions(+)

diff --git a/include/aggregation/lbc_utils.h b/include/aggregation/lbc_utils.h
index dd42dea..c066a64 100644
--- a/include/aggregation/lbc_utils.h
+++ b/include/aggregation/lbc_utils.h
@@ -94,6 +94,18 @@ namespace sym_lib{
  int find_min(double *cost, int size);
 
 
+ /// Sets the cost of each part to that of its members and empties the bins,
+ /// so that packing does not see the costs of an earlier level
+ /// \param parts
+ /// \param nodeCost
+ /// \param partCost out: one per part
+ /// \param binCost out: one per bin
+ /// \param numOfBins
+ void reset_pack_costs(const std::vector<std::vector<int>> &parts,
+                       const double *nodeCost, double *partCost,
+                       double *binCost, int numOfBins);
+
+
  ///
  /// \param newLeveledParList
  /// \param inCost
diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 30ca081..3911240 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -208,6 +208,8 @@ namespace sym_lib {
    int outinnerParts = 0;
    mergedLeveledParList.resize(innerParts);
    if (newLeveledParList.size() > innerParts) {
+    reset_pack_costs(newLeveledParList, nodeCost, outCost,
+                     newOutCost, innerPartsSize[l]);
     outinnerParts = worst_fit_bin_pack(newLeveledParList, outCost,
                                     mergedLeveledParList, newOutCost,
                                     levelParCostThresh, innerPartsSize[l]);
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 9d5a4fd..04d62d1 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -209,6 +209,8 @@ namespace sym_lib {
    averageCC += newLeveledParList.size();
    mergedLeveledParList.resize(innerPartsSize[l]);//FIXME;
    if (newLeveledParList.size() > innerPartsSize[l] && bin_pack) {
+    reset_pack_costs(newLeveledParList, nodeCost, outCost,
+                     newOutCost, innerPartsSize[l]);
     outinnerParts = worst_fit_bin_pack(newLeveledParList, outCost,
                                        mergedLeveledParList, newOutCost,
                                        levelParCostThresh, innerPartsSize[l]);
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6ced3aa..6b917ea 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -158,6 +158,8 @@ void process_l_partition(
  totalCC += newLeveledParList.size();
  mergedLeveledParListByL[l].resize(innerPartsSize[l]); // FIXME
  if (binPacking && newLeveledParList.size() > innerPartsSize[l]) {
+  reset_pack_costs(newLeveledParList, nodeCost, outCost,
+                   newOutCost, innerPartsSize[l]);
   outinnerParts =
    worst_fit_bin_pack(newLeveledParList, outCost, mergedLeveledParListByL[l],
                       newOutCost, levelParCostThresh, innerPartsSize[l]);
@@ -593,6 +595,8 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
   averageCC += newLeveledParList.size();
   mergedLeveledParList.resize(innerPartsSize[l]); // FIXME
   if (newLeveledParList.size() > innerPartsSize[l]) {
+   reset_pack_costs(newLeveledParList, nodeCost, outCost,
+                    newOutCost, innerPartsSize[l]);
    outinnerParts =
     worst_fit_bin_pack(newLeveledParList, outCost, mergedLeveledParList,
                        newOutCost, levelParCostThresh, innerPartsSize[l]);
diff --git a/src/lbc_tree.cpp b/src/lbc_tree.cpp
index 41ade6b..026d633 100644
--- a/src/lbc_tree.cpp
+++ b/src/lbc_tree.cpp
@@ -303,6 +303,8 @@ namespace sym_lib {
 
    mergedLeveledParList.resize(innerParts);
    if (newLeveledParList.size() > innerParts) {
+    reset_pack_costs(newLeveledParList, nodeCost, outCost,
+                     newOutCost, innerPartsSize[l]);
     outinnerParts = worst_fit_bin_pack(newLeveledParList, outCost,
                                     mergedLeveledParList, newOutCost,
                                     levelParCostThresh, innerPartsSize[l]);
diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index d4c3dd9..2af659b 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -160,6 +160,18 @@ namespace sym_lib{
  }
 
 
+ void reset_pack_costs(const std::vector<std::vector<int>> &parts,
+                       const double *nodeCost, double *partCost,
+                       double *binCost, int numOfBins) {
+  for (size_t i = 0; i < parts.size(); ++i) {
+   partCost[i] = 0;
+   for (int node : parts[i])
+    partCost[i] += nodeCost[node];
+  }
+  std::fill(binCost, binCost + numOfBins, 0.0);
+ }
+
+
  int worst_fit_bin_pack(const std::vector <std::vector<int>> &newLeveledParList,
                         double *inCost,
                         std::vector <std::vector<int>> &mergedLeveledParList,
-- 
2.43.0


From 01f21e8103cae73fd19c41c5b43a721e39630875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 51/59] fix: mmio writers reported failure for every banner and
 size they wrote

---
 utils/external/mmio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 923c701..09d98c3 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -164,7 +164,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_crd_size(FILE *f, int M, int N, int nz) {
-  if (fprintf(f, "%d %d %d\n", M, N, nz) != 3)
+  if (fprintf(f, "%d %d %d\n", M, N, nz) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -223,7 +223,7 @@ namespace sym_lib {
  }
 
  int mm_write_mtx_array_size(FILE *f, int M, int N) {
-  if (fprintf(f, "%d %d\n", M, N) != 2)
+  if (fprintf(f, "%d %d\n", M, N) < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
@@ -344,7 +344,7 @@ namespace sym_lib {
 
   ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
   free(str);
-  if (ret_code != 2)
+  if (ret_code < 0)
    return MM_COULD_NOT_WRITE_FILE;
   else
    return 0;
-- 
2.43.0


From 4a63b56c1b5b97b7d1ec54e21d8c314eadd435aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 52/59] fix: mm_read_unsymmetric_sparse accepted truncated and
 out of range entries

---
 utils/external/mmio.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 09d98c3..325df2c 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -52,27 +52,44 @@ namespace sym_lib {
   *N_ = N;
   *nz_ = nz;
 
+  if (M < 0 || N < 0 || nz < 0) {
+   fprintf(stderr, "read_unsymmetric_sparse(): negative matrix size.\n");
+   fclose(f);
+   return -1;
+  }
+
   /* reseve memory for matrices */
 
   I = (int *) malloc(nz * sizeof(int));
   J = (int *) malloc(nz * sizeof(int));
   val = (double *) malloc(nz * sizeof(double));
 
-  *val_ = val;
-  *I_ = I;
-  *J_ = J;
-
   /* NOTE: when reading in doubles, ANSI C requires the use of the "l"  */
   /*   specifier as in "%lg", "%lf", "%le", otherwise errors will occur */
   /*  (ANSI C X3.159-1989, Sec. 4.9.6.2, p. 136 lines 13-15)            */
 
   for (i = 0; i < nz; i++) {
-   fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
-   I[i]--;  /* adjust from 1-based to 0-based */
-   J[i]--;
+   long row, col; /* wide enough to tell an out of range index */
+   if (!I || !J || !val ||
+       fscanf(f, "%ld %ld %lg\n", &row, &col, &val[i]) != 3 ||
+       row < 1 || row > M || col < 1 || col > N) {
+    fprintf(stderr, "read_unsymmetric_sparse(): could not parse entry %d.\n",
+            i + 1);
+    free(I);
+    free(J);
+    free(val);
+    fclose(f);
+    return -1;
+   }
+   I[i] = row - 1;  /* adjust from 1-based to 0-based */
+   J[i] = col - 1;
   }
   fclose(f);
 
+  *val_ = val;
+  *I_ = I;
+  *J_ = J;
+
   return 0;
  }
 
-- 
2.43.0


From a0f79ba8a0dab6ee9c33b3ffb83f131e1b5e7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 53/59] fix: HDAGG dealt the last merged band with the packing
 of a shorter one

---
 src/hdagg/hdagg.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hdagg/hdagg.cpp b/src/hdagg/hdagg.cpp
index cf66482..9fca156 100755
--- a/src/hdagg/hdagg.cpp
+++ b/src/hdagg/hdagg.cpp
@@ -778,9 +778,8 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                        }
+                        //All the wavefronts are merged, the last packing is the accepted one
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     prev_upper_bound = ub_level;
@@ -996,10 +995,8 @@ namespace HDAGG
                     WM_condidate = ub_level;
                     ub_level = std::min(ub_level + 1, nlevels);
                     if(prev_upper_bound == ub_level){
-                        if(iteration_counter == 1){
-                            chunk_sizes[WM.size() - 1] = chunk_array;
-                            node2partition_accepted = node2partition;
-                        }
+                        //All the wavefronts are merged, the last packing is the accepted one
+                        chunk_sizes[WM.size() - 1] = chunk_array;
                         done_flag = true;
                     }
                     node2partition_accepted = node2partition;
-- 
2.43.0


From 78b02aedbf0abe2b1a07ec86e6b1e1ce6e10821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 54/59] fix: height partitioning with sw lost the levels after
 the last cut

---
 src/lbc_utils.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 2af659b..33394d5 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -304,7 +304,6 @@ namespace sym_lib{
   }
   partition2Level[0] = 0;
   if (sw) {
-      bool f_spart=false;
    for (int i = minLevelDist; i < levelNo; i += minLevelDist) {
     //for leaves
     if (accuSlackGroups[i] >= divRate * innerPartsTmp) {
@@ -319,15 +318,12 @@ namespace sym_lib{
          innerPartsSize.push_back(tmp);
      }
      else{
-         f_spart= true;
          break;
      }
     }
    }
-   if (f_spart){
-       partition2Level[++lClusterCnt] = originalHeight;
-       innerPartsSize.push_back(1);//The last partition has one element
-   }
+   partition2Level[++lClusterCnt] = originalHeight;
+   innerPartsSize.push_back(1);//The last partition has one element
   } else {
    /*if(minLevelDist<=0)
     minLevelDist=2;//default parameter*/
-- 
2.43.0


From 8da8bc0a5777b15bb113b31fe99f46c858e01e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 55/59] fix: mmio readers left the file open when they rejected
 it

---
 utils/external/mmio.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 325df2c..968e934 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -29,6 +29,7 @@ namespace sym_lib {
   if (mm_read_banner(f, &matcode) != 0) {
    printf("mm_read_unsymetric: Could not process Matrix Market banner ");
    printf(" in file [%s]\n", fname);
+   fclose(f);
    return -1;
   }
 
@@ -38,6 +39,7 @@ namespace sym_lib {
    fprintf(stderr, "Sorry, this application does not support ");
    fprintf(stderr, "Market Market type: [%s]\n",
            mm_typecode_to_str(matcode));
+   fclose(f);
    return -1;
   }
 
@@ -45,6 +47,7 @@ namespace sym_lib {
 
   if (mm_read_mtx_crd_size(f, &M, &N, &nz) != 0) {
    fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+   fclose(f);
    return -1;
   }
 
@@ -320,15 +323,21 @@ namespace sym_lib {
    return MM_COULD_NOT_READ_FILE;
 
 
-  if ((ret_code = mm_read_banner(f, matcode)) != 0)
+  if ((ret_code = mm_read_banner(f, matcode)) != 0) {
+   if (f != stdin) fclose(f);
    return ret_code;
+  }
 
   if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) &&
-        mm_is_matrix(*matcode)))
+        mm_is_matrix(*matcode))) {
+   if (f != stdin) fclose(f);
    return MM_UNSUPPORTED_TYPE;
+  }
 
-  if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
+  if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0) {
+   if (f != stdin) fclose(f);
    return ret_code;
+  }
 
 
   *I = (int *) malloc(*nz * sizeof(int));
@@ -339,20 +348,17 @@ namespace sym_lib {
    *val = (double *) malloc(*nz * 2 * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
   } else if (mm_is_real(*matcode)) {
    *val = (double *) malloc(*nz * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
   } else if (mm_is_pattern(*matcode)) {
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-   if (ret_code != 0) return ret_code;
   }
 
   if (f != stdin) fclose(f);
-  return 0;
+  return ret_code;
  }
 
  int mm_write_banner(FILE *f, MM_typecode matcode) {
-- 
2.43.0


From 169809b4b6be7a80a611745d171cc939eb76686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 56/59] fix: mm_read_mtx_crd reported success for integer
 entries it did not read

---
 utils/external/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/external/mmio.cpp b/utils/external/mmio.cpp
index 968e934..3880a43 100644
--- a/utils/external/mmio.cpp
+++ b/utils/external/mmio.cpp
@@ -352,7 +352,7 @@ namespace sym_lib {
    *val = (double *) malloc(*nz * sizeof(double));
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
-  } else if (mm_is_pattern(*matcode)) {
+  } else { /* pattern; other types hold no values it can read */
    ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val,
                                    *matcode);
   }
-- 
2.43.0


From 8a4917f62a0406441fac91f753a1c3f59183743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:13 +0000
Subject: [PATCH 57/59] fix: parallel LBC lost component costs when several
 threads added to one component

---
 src/lbc_csc_dag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index 6b917ea..ec92de4 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -81,6 +81,7 @@ int parallel_cc(int *lC, int *lR, int dfsLevel, int ubLevel, int *node2Level,
  for (int i = 0; i < numNodes; ++i) {
   int node = nodes[i];
   int cc = node2partition[node];
+#pragma omp atomic
   outCost[cc] += nodeCost[node];
   max_cc = std::max(max_cc, cc + 1);
  }
-- 
2.43.0


From bf3805183df654cb24487f59c6f25d8fc311ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:26 +0000
Subject: [PATCH 58/59] fix: merge_inner_part stored each merged part's cost in
 the next part's place

---
 src/lbc_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lbc_utils.cpp b/src/lbc_utils.cpp
index 33394d5..2f080ec 100644
--- a/src/lbc_utils.cpp
+++ b/src/lbc_utils.cpp
@@ -135,8 +135,8 @@ namespace sym_lib{
       newLeveledParList[i].begin(), newLeveledParList[i].end());
     i++;
    }
-   lClusterCnt++;
    outCost[lClusterCnt] = curCost;
+   lClusterCnt++;
   }
   return lClusterCnt;
  }
-- 
2.43.0


From c1e5bda9ab26b121851105b68ae30862413008cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:36 +0000
Subject: [PATCH 59/59] fix: LBC on DAGs and on blocks never set the number of
 partitions it reports

---
 src/lbc_blocked.cpp | 1 +
 src/lbc_csc.cpp     | 1 +
 src/lbc_csc_dag.cpp | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/lbc_blocked.cpp b/src/lbc_blocked.cpp
index 3911240..2d36db8 100644
--- a/src/lbc_blocked.cpp
+++ b/src/lbc_blocked.cpp
@@ -263,6 +263,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
   if (true) {//Verification of the set.
    bool *checkExist = new bool[n];
    for (int i = 0; i < n; ++i) checkExist[i] = false;
diff --git a/src/lbc_csc.cpp b/src/lbc_csc.cpp
index 04d62d1..1611a49 100644
--- a/src/lbc_csc.cpp
+++ b/src/lbc_csc.cpp
@@ -263,6 +263,7 @@ namespace sym_lib {
   }
 
   finaLevelNo = lClusterCnt;
+  partNo = finaLevelPtr[finaLevelNo];
 #ifdef CHECK
   if (true) {//Verification of the set.
       bool *checkExist = new bool[n];
diff --git a/src/lbc_csc_dag.cpp b/src/lbc_csc_dag.cpp
index ec92de4..334d12e 100644
--- a/src/lbc_csc_dag.cpp
+++ b/src/lbc_csc_dag.cpp
@@ -375,6 +375,7 @@ int get_coarse_Level_set_DAG_CSC03_parallel(
                           levelPtr, levelSet, numThreads, binPacking);
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
   for (int i = 0; i < n; ++i)
@@ -655,6 +656,7 @@ int get_coarse_Level_set_DAG_CSC03(size_t n, int *lC, int *lR, int &finaLevelNo,
  }
 
  finaLevelNo = lClusterCnt;
+ partNo = finaLevelPtr[finaLevelNo];
  //  std::cout<<tt_ts<<",";
  if (true) { // Verification of the set.
   bool *checkExist = new bool[n];
-- 
2.43.0

