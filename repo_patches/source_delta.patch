From 6c8783dcb88a436dc0686a911b5badc6fb6bf906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:03 +0000
Subject: [PATCH 01/85] fix: IsThereNode compares label texts, not pointers

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7f63069..d771337 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -792,7 +792,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From 44dbe32f27e1afc4ae43979b4a5f7a32e5f2fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 02/85] fix: RemoveIsolatedNodes keeps nodes that are only
 linked to, and frees the ones it removes

---
 src/graph.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index d771337..d81ff8e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -844,15 +844,28 @@ int
 RemoveIsolatedNodes(struct node_gra *root)
 {
   struct node_gra *p=NULL, *temp=NULL;
+  struct node_lis *n=NULL;
   int nrem=0;
+  int *linked=NULL;
+
+  // Mark the nodes that other nodes link to (in a directed network,
+  // they may have no outgoing links themselves)
+  RenumberNodes(root);
+  linked = (int *) calloc(CountNodes(root) + 1, sizeof(int));
+  p = root;
+  while ((p = p->next) !=  NULL) {
+    n = p->neig;
+    while ((n = n->next) !=  NULL)
+      linked[n->node] = 1;
+  }
 
   // Revome isolated nodes
   p = root;
   while (p->next !=  NULL) {
-    if (NodeDegree(p->next) ==  0) {
+    if (NodeDegree(p->next) ==  0 && linked[p->next->num] == 0) {
       temp = p->next;
       p->next = (p->next)->next;
-      free(temp);
+      FreeNode(temp);
       nrem++;
     }
     else{
@@ -860,6 +873,8 @@ RemoveIsolatedNodes(struct node_gra *root)
     }
   }
 
+  free(linked);
+
   // Renumber the nodes and links in the network
   RenumberNodes(root);
 
-- 
2.43.0


From e4ce214f7950414b4792dc274ec9b88de21f19f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:21 +0000
Subject: [PATCH 03/85] fix: AverageSquaredDegree no longer truncates to an
 integer

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index d81ff8e..16d6876 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1448,7 +1448,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return (double)k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From 341c460f5c15d42b41180b0b95a3a479d5192c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:21 +0000
Subject: [PATCH 04/85] fix: SquareClustering survives nodes without second
 neighbours in disconnected networks

---
 src/graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 16d6876..35563e1 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1921,7 +1921,7 @@ SquareClustering(struct node_gra *root)
 
       k1 = k2 = 0;
       pl = (list->next)->next; // Pointer to the first neighbor
-      while(pl->d<2){
+      while(pl != NULL && pl->d<2){
 	pl = pl->next;
 	k1++;
       }   // count first neighbors and place the pointer at the first
@@ -1936,7 +1936,7 @@ SquareClustering(struct node_gra *root)
 	pl = pl->next;
       }
 
-      if(k1>1){
+      if(k1>1 && k2>0){
 	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
       }
       else
-- 
2.43.0


From d39fc12969201918bceda8a5f0d034e98445040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:48 +0000
Subject: [PATCH 05/85] fix: GetLargestWeaklyConnectedSet follows directed
 zigzags to the end

---
 src/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index 35563e1..be691ff 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2819,6 +2819,8 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 	  d++;
 	}while(*size != size_ant);
 
+	// Nodes already examined may lead to the ones just added
+	p3 = p;
       }
     }
 
-- 
2.43.0


From b4876cef01430320d72ff065b2c1944ab6df80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:01 +0000
Subject: [PATCH 06/85] fix: GetAllConnectedSets keeps the links of every
 component

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index be691ff..871471a 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2967,7 +2967,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
-- 
2.43.0


From 9b4a102f9ba45d4f821fc060c9feca7f6513cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:20 +0000
Subject: [PATCH 07/85] fix: PAGraph never draws the new node itself, so every
 new node gets m links

---
 src/models.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models.c b/src/models.c
index c947bb6..9cda97b 100644
--- a/src/models.c
+++ b/src/models.c
@@ -117,7 +117,8 @@ PAGraph(int S, int m, gsl_rng *gen)
 	/* preferential attachment */
 	node2 = paList[(int)(gsl_rng_uniform(gen) * norm)];
       }
-      while (IsThereLink(nodeList[node1], nodeList[node2]) == 1);
+      while (node2 == node1 ||
+	     IsThereLink(nodeList[node1], nodeList[node2]) == 1);
       AddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);
       AddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);
       paList[norm++]=node1;
-- 
2.43.0


From 5ebd3f400ac03bcb04e8bc05ad727c280819053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:20 +0000
Subject: [PATCH 08/85] fix: AddRandomLinks adds one-way links when
 symmetric_sw is 0

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 871471a..8ddd6f6 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1013,7 +1013,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From ced43ee658c83eb919212b940e76572c8ea59528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:16 +0000
Subject: [PATCH 09/85] fix: CreateEquiNPartition stops at the last node when
 the last group is short

---
 src/modules.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..ca62146 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -197,7 +197,8 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
     for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
+      if (p->next != NULL) {
+	p = p->next;
 	AddNodeToGroup(g, p);
       }
     }
-- 
2.43.0


From dcf2052a06637192a7d33bbaac5f3a95f8751685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:31 +0000
Subject: [PATCH 10/85] fix: CreatePartitionFromInGroup no longer counts
 internal links twice

---
 src/modules.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index ca62146..60e95ca 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -278,6 +278,10 @@ CreatePartitionFromInGroup(struct node_gra *net)
     AddNodeToGroup(glist[p->inGroup], p);
   }
 
+  /* The nodes had their inGroup set from the start, so the links of
+     the groups must be recounted */
+  MapPartToNet(part, net);
+
   /* Free memory and return */
   free(glist);
   return part;
-- 
2.43.0


From 6de7a4fe3e1e74dfee428d2f66e3b0719bdc2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:53 +0000
Subject: [PATCH 11/85] fix: BuildNetFromGroupNeig connects the links to the
 right nodes

---
 src/modules.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 60e95ca..d36ecd1 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1139,7 +1139,8 @@ BuildNetFromGroupNeig(struct group *group)
   }
 
   CleanAdjacencies(net);
-  RewireAdjacencyByNum(net);
+  RewireAdjacencyByLabel(net);
+  RenumberNodes(net);
 
   return net;
 }
-- 
2.43.0


From e59fb008eabf2126a0603d0cce8cf1d719054275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:00 +0000
Subject: [PATCH 12/85] fix: MapPartToNetSoft leaves the partition alone and
 accepts sub-networks

---
 src/modules.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index d36ecd1..cbfab74 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1385,7 +1385,6 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   struct group *g = NULL;
   struct node_lis *nod;
   void *nodeDict = NULL;
-  struct node_tree *treeNode = NULL;
   struct node_gra *node = NULL;
 
   /* Reset the group of all nodes */
@@ -1394,30 +1393,20 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   /* Create the nodeDict for fast access to nodes by label */
   nodeDict = MakeLabelDict(net);
 
-  /* Go through the groups, reset attributes, and point pointers */
+  /* Go through the groups and update the nodes present in the network */
   g = part;
   while ((g = g->next) != NULL) {
-    g->totlinks = 0;
-    g->inlinks = 0;
-    g->outlinks = 0;
-    g->totlinksW = 0.0;
-    g->inlinksW = 0.0;
-    g->outlinksW = 0.0;
-
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
-      /* Get the node_gra by label */
-      treeNode = CreateNodeTree();
-      strcpy(treeNode->label, nod->nodeLabel);
-      node = (*(struct node_tree **)tfind((void *)treeNode,
-					  &nodeDict,
-					  NodeTreeLabelCompare))->ref;
-      FreeNodeTree(treeNode);
-      /* Update the properties of the node */
-      node->inGroup = g->label;
+      node = GetNodeDict(nod->nodeLabel, nodeDict);
+      if (node != NULL)
+	node->inGroup = g->label;
     }
   }
 
+  /* Free memory allocated locally */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From e6586924860b267e432a6526df9eecbafb998961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 13/85] fix: MutualInformation of two single-group partitions
 is 1, not NaN

---
 src/modules.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index cbfab74..a491154 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1667,7 +1667,10 @@ MutualInformation(struct group *part1, struct group *part2, int label_sw)
   /*
     Compute mutual information
   */
-  I12 = -2.0 * H12 / (H1 + H2);
+  if (H1 + H2 == 0.0)
+    I12 = 1.0;   /* both partitions have a single group */
+  else
+    I12 = -2.0 * H12 / (H1 + H2);
 
   return I12;
 }
-- 
2.43.0


From 9112753e2fc5c4275850d0a7cb2bc214436c510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 14/85] fix: BlockModel within-group link probability is over
 all pairs of the group

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index a491154..2d2b639 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -775,7 +775,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	    break;
 	  case 'p':
 	    if (g1 == g2)
-	      bij = (double)NG2GLinks(g1, g2) /
+	      bij = 2.0 * (double)NG2GLinks(g1, g2) /
 		(double)(g1->size * (g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-- 
2.43.0


From 965a11eb4753a66baed5ee020dafd0f78fd38b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 15/85] fix: CorrectlyClassified counts every node once

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 2d2b639..83fae23 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1757,7 +1757,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From 641a7a34340f53e4017859fd8247829d1fbc7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:38 +0000
Subject: [PATCH 16/85] fix: link removal by group no longer reads links it has
 freed

---
 src/modules.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 83fae23..09b8b8d 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -677,13 +677,16 @@ void
 RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
 {
   struct node_lis *nod;
-  struct node_lis *nei;
+  struct node_lis *nei, *nextnei;
 
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
-    nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
+    nei = nod->ref->neig->next;
+    while (nei != NULL) {
+      nextnei = nei->next; /* RemoveLink frees nei */
       RemoveLink(nod->ref, nei->ref, symmetric_sw);
+      nei = nextnei;
+    }
   }
 
   return;
@@ -699,15 +702,17 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
 {
   struct group *g = part;
   struct node_lis *nod;
-  struct node_lis *nei;
+  struct node_lis *nei, *nextnei;
 
   while ((g = g->next) != NULL) {
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
-      nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
+      nei = nod->ref->neig->next;
+      while (nei != NULL) {
+	nextnei = nei->next; /* RemoveLink frees nei */
 	if (nod->ref->inGroup != nei->ref->inGroup)
 	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
+	nei = nextnei;
       }
     }
   }
@@ -1493,15 +1498,17 @@ void
 RemoveInterGroupLinks(struct node_gra *net)
 {
   struct node_gra *p = net;
-  struct node_lis *n;
+  struct node_lis *n, *nextn;
   int thisgroup;
 
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
-    n = p->neig;
-    while ((n = n->next) != NULL) {
+    n = p->neig->next;
+    while (n != NULL) {
+      nextn = n->next; /* RemoveLink frees n */
       if(n->ref->inGroup != thisgroup)
 	RemoveLink(p, n->ref, 0);
+      n = nextn;
     }
   }
 }
-- 
2.43.0


From 3554b652d6d585fa2838afd7edd16704e7711025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:03 +0000
Subject: [PATCH 17/85] fix: WithinModuleRelativeStrength is 0, not NaN, when
 rounding makes the variance negative

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 09b8b8d..30b1e5d 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1992,8 +1992,8 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   k2mean /= (double)(group->size);
   kstd = sqrt(k2mean - kmean * kmean);
 
-  // Calculate the z-score
-  if (kstd == 0.0)
+  // Calculate the z-score (rounding can make the variance negative)
+  if (!(kstd > 0.0))
     z = 0.0;
   else
     z = ((double)StrengthToGroup(node, group) - kmean) / kstd;
-- 
2.43.0


From 30ea6d003fff0d6823abc47f66c35e0e338c8893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 18/85] fix: SACommunityIdent honours ngroup=0 (as many groups
 as nodes) in random starts

---
 src/modules.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 30b1e5d..8a3df55 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2348,6 +2348,8 @@ SACommunityIdent(struct node_gra *net,
     break;
 
   case 'r':        /*  Random placement of nodes in groups */
+    if (ngroup == 0)
+      ngroup = nnod;
     glist = (struct group **) calloc(ngroup, sizeof(struct group *));
     lastg = part;
     for (i=0; i<ngroup; i++)
-- 
2.43.0


From 223683711a649f48cc3564f427d8f9621566ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 19/85] fix: SACommunityIdent with a single group terminates

---
 src/modules.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 8a3df55..3feb341 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2371,6 +2371,8 @@ SACommunityIdent(struct node_gra *net,
     cicle1 = 10;
   else
     cicle1 = floor(fac * (double)(nnod * nnod));
+  if (ngroup < 2)
+    cicle1 = 0;   /* there is no other group to move a node to */
 
   if (fac * (double)nnod < 2)
     cicle2 = 2;
-- 
2.43.0


From e60cc54b7f1010af3ef2b9e07112dc535180e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 20/85] fix: SACommunityIdent survives networks without links
 and empty schedules

---
 src/modules.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 3feb341..9b8cdc8 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2631,7 +2631,8 @@ SACommunityIdent(struct node_gra *net,
   } /*  End of simulated annealing */
  
   /* Free memory */
-  RemovePartition(best_part);
+  if (best_part != NULL)
+    RemovePartition(best_part);
   FreeLabelDict(nodeDict);
   free(glist);
   free(nlist);
-- 
2.43.0


From 81c559b47fcbb7ed937348a8c25ebc1ca721d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:16 +0000
Subject: [PATCH 21/85] fix: CreatePartition allocates as many module slots as
 there are modules

---
 src/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..26e0f7c 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -53,7 +53,7 @@ CreatePartition(unsigned int N, unsigned int M){
   part->M = M;
   part->nempty = M;
   part->nodes = (Node **) malloc(N*sizeof(Node*));
-  part->modules = (Module **) malloc(N*sizeof(Module*));
+  part->modules = (Module **) malloc(M*sizeof(Module*));
   if (part->nodes==NULL || part->modules == NULL)
 	perror("Error while allocating partition component");
 
-- 
2.43.0


From 14ff45e32c1ff5bfcb15e28e7d01de7e51c91cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:16 +0000
Subject: [PATCH 22/85] fix: SplitModuleByComponent finds the components of the
 subgraph the module induces

---
 src/movements.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..1383f00 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -271,7 +271,9 @@ SplitModuleByComponent(unsigned int targetModuleId,
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  // Stay inside the module: components are those of the
+		  // subgraph it induces.
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From dfd565966e5d924cfcd4624adb5391ea731532d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:16 +0000
Subject: [PATCH 23/85] fix: GeneralSA always returns its best partition, and
 copes with one module

---
 src/sannealing.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..665cefb 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -50,6 +50,7 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   unsigned int target, oldg, newg, i, g1, g2, j, empty, ncomponent, err;
   double T = Ti;
   unsigned int nochange_count=0;
+  int improved;
 
   double dE=0.0, E=0.0, previousE=0.0, best_E=-1.0/0.0;  //initial best is -infinity.
   info ("#Simulated annealing:\n");
@@ -66,6 +67,14 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   else
 	collective_movements = floor(fac * (double)part->N);
 
+  // A node cannot change module when there is only one.
+  if (part->M < 2)
+	individual_movements = 0;
+
+  // The best partition so far is the initial one.
+  best_part = CopyPartitionStruct(part);
+  best_E = E;
+
   info ("#T\tE\tStop\n");
   /// SIMULATED ANNEALING ///
   for (T=Ti; T > Tf; T = T*Ts) {
@@ -187,6 +196,15 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	  } // End of unless there is no empty group (=End of split).
 	} //End of collective movements
 
+	//// KEEP THE BEST PARTITION ////
+	improved = E > best_E;
+	if (improved) {
+	  info ("# Saving a new best partition (%e)\n",E);
+	  FreePartition(best_part);
+	  best_part = CopyPartitionStruct(part);
+	  best_E = E;
+	}
+
 	//// BREAK THE LOOP IF NO CHANGES... ////
 	if ( (fabs(E - previousE) / fabs(previousE) < EPSILON_MOD)
 		 || (fabs(previousE) < EPSILON_MOD) )
@@ -207,14 +225,7 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 		  part = CopyPartitionStruct(best_part);
 		}
 	  }
-	// Compare the current partition to the best partition so far and
-	// update it if needed.
-	else if ( E > best_E) {
-	  info ("# Saving a new best partition (%e)\n",E);
-	  if (best_part!=NULL)
-		FreePartition(best_part);
-	  best_part = CopyPartitionStruct(part);
-	  best_E = E;
+	else if (improved) {
 	  nochange_count = 0;
 	}
    	// update the previous energy level.
-- 
2.43.0


From 292411d350777da3a8e6d8581152e503d3b9bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 24/85] fix: PartitionRolesMetrics does not take rounding noise
 for a spread of strengths

---
 src/partition.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 26e0f7c..98556e3 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -203,7 +203,8 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   // Compute the z-score.
   for (i=0; i<N; i++){
 	mod = part->nodes[i]->module;
-	if (std[mod])
+	// (a spread of the order of rounding errors is no spread at all)
+	if (std[mod] > 1e-12 * fabs(mean[mod]))
 	  connectivity[i] = (strengthToModule[i+N*mod] - mean[mod]) / std[mod];
 	else
 	  connectivity[i] = 0;
-- 
2.43.0


From 04e66e708ea82a7d9c2c9de6e6721e8079d3a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 25/85] fix: PartitionRolesMetrics initialises the
 participation it accumulates

---
 src/partition.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partition.c b/src/partition.c
index 98556e3..1d6634f 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -214,6 +214,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   // Participation is the 1-simpson index of node to modules strength.
   // P_i = 1 - SUM(K_iG^2/k_i^2).
   for (i=0; i<N; i++){
+	participation[i] = 0;
 	// Participation coefficient of unconnected nodes is null.
 	if(adj->idx[i]==adj->idx[i+1]) //Node i is of null degree.
 	  participation[i] = 0;
-- 
2.43.0


From 7f919e7c1e94c832125905e14baca45ebc0d4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 26/85] fix: ProjectBipartEdgeList no longer reads past its
 edges or an uninitialised strength

---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..e7a715e 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -155,7 +155,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -164,7 +164,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -182,7 +182,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -206,7 +206,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -231,7 +231,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From 4fac0c05b48973456889bc35cba9208263f33838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:37 +0000
Subject: [PATCH 27/85] fix: AssignNodesToModulesFromFile reads back the
 clusterings netcarto writes

---
 src/io.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/io.c b/src/io.c
index 8e0c0c5..91a99ff 100644
--- a/src/io.c
+++ b/src/io.c
@@ -248,11 +248,11 @@ int
 AssignNodesToModulesFromFile(FILE *inF,
 							 Partition *part,
 							 char **labels){
-  char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int j = 0, nfields = 0, nnode = part->N;
+  char *line = NULL, *label = NULL;
+  size_t bufsiz = 0;
+  int j = 0, read, nnode = part->N;
   hcreate(part->N);
-  int i;
+  long i;
   ENTRY e, *ep;
 
   for (i=0;i<nnode;i++){
@@ -260,13 +260,22 @@ AssignNodesToModulesFromFile(FILE *inF,
 	e.data = (void *) i;
 	ep = hsearch(e, ENTER);
   }
+  char *assigned = calloc(part->N+1,sizeof(char));
+
+  // One module per line, labels separated by tabs.
+  while (j < part->M && getline(&line, &bufsiz, inF) != -1){
+	// Skip the modularity header of the netcarto output.
+	if (line[0]=='#' && line[1]==' ') continue;
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+	read = 0;
+	for (label=strtok(line,"\t\r\n"); label!=NULL; label=strtok(NULL,"\t\r\n")){
 	  e.key = label;
 	  ep = hsearch(e, FIND);
-	  i = (int) ep->data;
+	  if (ep==NULL) continue; // Not a node of this network.
+	  i = (long) ep->data;
+	  if (assigned[i]) continue; // Already in a module.
+	  assigned[i] = 1;
+	  read = 1;
 	  nnode--;
 
 	  if (!part->modules[j]->size){
@@ -285,10 +294,11 @@ AssignNodesToModulesFromFile(FILE *inF,
 		part->nodes[i]->prev = part->modules[j]->last;
 		part->modules[j]->last = part->nodes[i];
 	  }
-	  if(sep[0]=='\n')
-		j++;
 	}
+	if (read) j++;
   }
+  free(line);
+  free(assigned);
 
   CompressPartition(part);
   hdestroy();
-- 
2.43.0


From a814de5ca6ef70a6690834d558f3230002b3dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:37 +0000
Subject: [PATCH 28/85] fix: netcarto stops when its input cannot be read

---
 netcarto/main_netcarto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index ddc2a7e..49b1f2c 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -169,6 +169,7 @@ main(int argc, char **argv)
 	err = EdgeListFileInput(inF, weighted, bipartite+invert,
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
+	if (err) return(1);
 	if (Ngroups==0) Ngroups=N;
 
 	if (!bipartite){
-- 
2.43.0


From 905d42da7c841560511bd2286848a71a10d3ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:49 +0000
Subject: [PATCH 29/85] fix: CompressPartition copes with a partition without
 any non-empty module

---
 src/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 1d6634f..e7bef4f 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -325,7 +325,7 @@ CompressPartition(Partition *part){
   // that were not freed (!=NULL) to one of the empty ids in the
   // begining of the list.
   j = 0;
-  for (i=(part->M)-1;i>=M;i--){
+  for (i=part->M;i-->M;){
 	if (part->modules[i]!=NULL) {
 	  for(node=part->modules[i]->first; node!=NULL; node = node->next){
 		node->module = empty_id[j];
-- 
2.43.0


From 803f06f428e8466835f428f879f01059c68923e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:52 +0000
Subject: [PATCH 30/85] fix: ProjectBipartWeighted keeps fractional weights

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..3060b46 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -610,7 +610,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
@@ -631,7 +631,7 @@ ProjectBipartWeighted(struct binet *binet)
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
     while ((p2 = p2->next) != NULL) {
-	  weight = (double)SumProductsOfCommonWeightsBipart(p1,p2);
+	  weight = SumProductsOfCommonWeightsBipart(p1,p2);
       if (weight > 0) {
 	AddAdjacency(GetNodeDict(p1->label, dict),
 		     GetNodeDict(p2->label, dict),
-- 
2.43.0


From 5098cb514cffb4ee2fb7ffe8fbae41819842c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:52 +0000
Subject: [PATCH 31/85] fix: FPrintTabNodesBipart writes to the file it is
 given

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 3060b46..d310f0a 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -994,7 +994,7 @@ FPrintTabNodesBipart(FILE *outf, struct binet *network,  struct group *modules,
 		z = WithinModuleRelativeStrength(n->ref, g);
 		role = GetRole(P,z) + 1;
 	  }
-	  printf ("%-20s\t%d\tR%d\t%f\t%f\n",
+	  fprintf (outf, "%-20s\t%d\tR%d\t%f\t%f\n",
 			  n->nodeLabel,
 			  group_nb,
 			  role,
-- 
2.43.0


From 71045e29c99eadd6093e483298beda501ddc5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:52 +0000
Subject: [PATCH 32/85] fix: ParticipationCoefficientBipart is 0, not NaN, for
 nodes without co-members

---
 src/bipartite.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index d310f0a..e1c0c01 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -1048,12 +1048,14 @@ ParticipationCoefficientBipart(struct node_gra *node)
     }
   }
 
-  /* Compute the participation coefficient */
-  for (i=0; i<=maxNum; i++)
-    P +=
-      (double)inGroupCount[i] * (double)inGroupCount[i] /
-      ((double)norm * (double)norm);
-  P = 1.0 - P;
+  /* Compute the participation coefficient (0 without co-members) */
+  if (norm > 0) {
+    for (i=0; i<=maxNum; i++)
+      P +=
+	(double)inGroupCount[i] * (double)inGroupCount[i] /
+	((double)norm * (double)norm);
+    P = 1.0 - P;
+  }
 
   /* Free memory */
   free_i_vec(inGroupCount);
-- 
2.43.0


From 4134ba5201954cdb8386cd29c65fcc5c829716dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:52 +0000
Subject: [PATCH 33/85] fix: RandomizeBipart gives the swapped links unit
 weight, like RandomizeSymmetricNetwork

---
 src/bipartite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index e1c0c01..5f57575 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -705,10 +705,10 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
     /* switch the link */
     RemoveLink(n1, n2, 1);
     RemoveLink(n3, n4, 1);
-    AddAdjacency(n1, n4, 0, 0, 0, 1);
-    AddAdjacency(n4, n1, 0, 0, 0, 1);
-    AddAdjacency(n3, n2, 0, 0, 0, 1);
-    AddAdjacency(n2, n3, 0, 0, 0, 1);
+    AddAdjacency(n1, n4, 0, 0, 1., 1);
+    AddAdjacency(n4, n1, 0, 0, 1., 1);
+    AddAdjacency(n3, n2, 0, 0, 1., 1);
+    AddAdjacency(n2, n3, 0, 0, 1., 1);
 
     ori[target1] = n1;
     des[target1] = n4;
-- 
2.43.0


From da443803c556664049117afe4f6b7d38b0426fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:00 +0000
Subject: [PATCH 34/85] fix: Gibbs steps no longer use stale counts when all
 the nodes are in one group

---
 src/missing.c        | 13 +++++++++++++
 src/multiblock.c     | 26 ++++++++++++++++++++++++++
 src/only_deg.c       | 13 +++++++++++++
 src/sparse_missing.c | 13 +++++++++++++
 4 files changed, 65 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..31179b9 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2053,6 +2053,19 @@ GibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* What does not depend on the destination group (needed for the
+       move to an empty group even if there is no other destination) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/multiblock.c b/src/multiblock.c
index ee89278..4705950 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1356,6 +1356,19 @@ GibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* What does not depend on the destination group (needed for the
+       move to an empty group even if there is no other destination) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
@@ -1992,6 +2005,19 @@ ORGibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* What does not depend on the destination group (needed for the
+       move to an empty group even if there is no other destination) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/only_deg.c b/src/only_deg.c
index d271ea3..5659a8c 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -719,6 +719,19 @@ GibbsLinkScoreStepMB_OD(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* What does not depend on the destination group (needed for the
+       move to an empty group even if there is no other destination) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index bde304a..83992cd 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -123,6 +123,19 @@ SparseGibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* What does not depend on the destination group (needed for the
+       move to an empty group even if there is no other destination) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
-- 
2.43.0


From d84cf7411c9a393682b446a34bbd00df1c7c354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:00 +0000
Subject: [PATCH 35/85] fix: the decorrelation step is always at least one, and
 found for networks of less than 20 nodes

---
 src/missing.c    | 12 ++++++++----
 src/multiblock.c | 14 ++++++++++----
 src/only_deg.c   |  7 +++++--
 src/recommend.c  | 10 ++++++----
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 31179b9..ed478df 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -351,6 +351,8 @@ GetDecorrelationStep(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -401,7 +403,7 @@ GetDecorrelationStep(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (fabs(decay[rep] - meanDecay) > 2 * sigmaDecay + EPSILON) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
@@ -419,7 +421,8 @@ GetDecorrelationStep(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  /* At least one step, or the sampler would never move */
+  return (result / norm < 1.0) ? 1 : result / norm;
 }
 
 /*
@@ -1600,7 +1603,7 @@ LSGetDecorrelationStepKState(int K,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (fabs(decay[rep] - meanDecay) > 2 * sigmaDecay + EPSILON) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
@@ -1626,7 +1629,8 @@ LSGetDecorrelationStepKState(int K,
   /* Clean up */
   free_d_vec(decay);
 
-  return (int)(result / norm + 0.5);
+  /* At least one step, or the sampler would never move */
+  return (result / norm < 1.0) ? 1 : (int)(result / norm + 0.5);
 }
 
 
diff --git a/src/multiblock.c b/src/multiblock.c
index 4705950..61726f9 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -284,6 +284,8 @@ GetDecorrelationStepMB(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -335,7 +337,7 @@ GetDecorrelationStepMB(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (fabs(decay[rep] - meanDecay) > 2 * sigmaDecay + EPSILON) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
@@ -353,7 +355,8 @@ GetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  /* At least one step, or the sampler would never move */
+  return (result / norm < 1.0) ? 1 : result / norm;
 }
 
 /*
@@ -914,6 +917,8 @@ ORGetDecorrelationStepMB(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -965,7 +970,7 @@ ORGetDecorrelationStepMB(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (fabs(decay[rep] - meanDecay) > 2 * sigmaDecay + EPSILON) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
@@ -983,7 +988,8 @@ ORGetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  /* At least one step, or the sampler would never move */
+  return (result / norm < 1.0) ? 1 : result / norm;
 }
 
 /*
diff --git a/src/only_deg.c b/src/only_deg.c
index 5659a8c..1fc085d 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -282,6 +282,8 @@ GetDecorrelationStepMB_OD(double *H,
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -333,7 +335,7 @@ GetDecorrelationStepMB_OD(double *H,
   sigmaDecay = stddev(decay, nrep);
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs(decay[rep] - meanDecay) / sigmaDecay > 2) {
+    if (fabs(decay[rep] - meanDecay) > 2 * sigmaDecay + EPSILON) {
       result -= decay[rep];
       switch (verbose_sw) {
       case 'q':
@@ -351,7 +353,8 @@ GetDecorrelationStepMB_OD(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  /* At least one step, or the sampler would never move */
+  return (result / norm < 1.0) ? 1 : result / norm;
 }
 
 /*
diff --git a/src/recommend.c b/src/recommend.c
index cc5e06a..655a93e 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -610,7 +610,7 @@ GetDecorrelationStep2State(double *H,
   }
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs((*decay)[rep] - meanDecay) / sigmaDecay > 2) {
+    if (fabs((*decay)[rep] - meanDecay) > 2 * sigmaDecay + EPSILON) {
       result -= (*decay)[rep];
       switch (verbose_sw) {
       case 'q':
@@ -637,7 +637,8 @@ GetDecorrelationStep2State(double *H,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  /* At least one step, or the sampler would never move */
+  return (result / norm < 1.0) ? 1 : (int)(result / norm + 0.5);
 }
 
 
@@ -1448,7 +1449,7 @@ GetDecorrelationStepKState(int K,
   }
   result = meanDecay * nrep;
   for (rep=0; rep<nrep; rep++) {
-    if (fabs((*decay)[rep] - meanDecay) / sigmaDecay > 2) {
+    if (fabs((*decay)[rep] - meanDecay) > 2 * sigmaDecay + EPSILON) {
       result -= (*decay)[rep];
       switch (verbose_sw) {
       case 'q':
@@ -1475,7 +1476,8 @@ GetDecorrelationStepKState(int K,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  /* At least one step, or the sampler would never move */
+  return (result / norm < 1.0) ? 1 : (int)(result / norm + 0.5);
 }
 
 
-- 
2.43.0


From 52604208d9b38c9b0b93d24bb5b4a368041e0aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:00 +0000
Subject: [PATCH 36/85] fix: K-state and recommender thermalization terminates
 when the energy is constant

---
 src/missing.c   | 3 ++-
 src/recommend.c | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index ed478df..ec0df06 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1685,7 +1685,8 @@ LSThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
diff --git a/src/recommend.c b/src/recommend.c
index 655a93e..482cd08 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -699,7 +699,8 @@ ThermalizeMC2State(int decorStep,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -1532,7 +1533,8 @@ ThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -2214,7 +2216,8 @@ GibbsThermalizeKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From 2674a4c7e5a32670088e4c48d241625e3a055e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:10 +0000
Subject: [PATCH 37/85] fix: LinkScoreMCStep does not use uninitialised link
 counts for empty groups

---
 src/missing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index ec0df06..210dea5 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -178,6 +178,8 @@ LinkScoreMCStep(int factor,
   int slgn, slgsize, isinlist;
 
   /* Preliminaries */
+  for (i=0; i<nnod; i++)
+    n2gList[i] = 0;  // No links to the (empty) groups not in the shortlist
   slg = allocate_i_vec(nnod);  // Shortlist of groups
   slgsize = 0;
   g = part;
-- 
2.43.0


From dd804034b66f93c0afff57edf048a2e8c86ec8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:03 +0000
Subject: [PATCH 38/85] fix: NetReconstruct survives networks without links to
 add or to remove

---
 src/missing.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 210dea5..f1448b5 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1083,6 +1083,7 @@ NetReconstruct(struct node_gra *netObs,
 	 score */
       maxLinkScore = 0.0;
       minLinkScore = 1.0;
+      n1Add = n1Remove = NULL;
       for (n1=0; n1<nnod; n1++) {
 	for (n2=n1+1; n2<nnod; n2++) {
 	  if ((linkScores[n1][n2] > maxLinkScore) &&
@@ -1100,6 +1101,10 @@ NetReconstruct(struct node_gra *netObs,
 	}
       }
 
+      /* Nothing to swap in an empty or a complete network */
+      if (n1Add == NULL || n1Remove == NULL)
+	break;
+
       /* Add and remove links */
       AddAdjacency(n1Add, n2Add, 0, 0, 1.0, 2);
       AddAdjacency(n2Add, n1Add, 0, 0, 1.0, 2);
-- 
2.43.0


From 0177b3af866b4c52aa30b49a1de62729ce86373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 39/85] fix: harmonic-number tables of the layered link scores
 cover every index they are read at

---
 src/multiblock.c | 8 ++++----
 src/only_deg.c   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiblock.c b/src/multiblock.c
index 61726f9..9dad71e 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -484,7 +484,7 @@ LinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_AND = allocate_d_mat(nnod, nnod);
@@ -1117,7 +1117,7 @@ ORLinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_OR = allocate_d_mat(nnod, nnod);
@@ -1770,7 +1770,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
@@ -2419,7 +2419,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
diff --git a/src/only_deg.c b/src/only_deg.c
index 1fc085d..a2250c0 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -483,7 +483,7 @@ LinkScoreMB_OD(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA = allocate_d_mat(nnod, nnod);
@@ -1130,7 +1130,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From 87e9bf982f9ade7c3717e487781d5f56e3c5b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 40/85] fix: the degeneracy-only Gibbs sampler starts from its
 own energy

---
 src/only_deg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/only_deg.c b/src/only_deg.c
index a2250c0..8bec7ad 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -1048,7 +1048,7 @@ GibbsThermalizeLSMCMB_OD(double *H,
 	/*PartitionHMB(part, linC, HarmonicList);*/ /* Number of groups */
 	break;
       case 'd':
-	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB(part, linC, HarmonicList),
+	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB_OD(part, linC, HarmonicList),
 		NNonEmptyGroups(part));
 	break;
       default:
@@ -1174,7 +1174,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   }
 
   /* Initial energy */
-  H = PartitionHMB(part, linC, HarmonicList);
+  H = PartitionHMB_OD(part, linC, HarmonicList);
 
   /*
     GET READY FOR THE SAMPLING
@@ -1220,7 +1220,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
       fprintf(stderr, "%d %lf\n", iter, H);
       break;
     case 'd':
-      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB(part, linC, HarmonicList),
+      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB_OD(part, linC, HarmonicList),
 	      NNonEmptyGroups(part));
       /* FPrintPartition(stderr, part, 0); */
       break;
-- 
2.43.0


From 5a30b7cfc450cb21b45143e2ae539ecabfea605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 41/85] fix: recommender Metropolis steps terminate when both
 sets have a single node

---
 src/recommend.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/recommend.c b/src/recommend.c
index 482cd08..e8de77a 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -300,6 +300,10 @@ MCStep2State(int factor,
   int j; 
   int move_in;
 
+  /* With a single node in each set there is nowhere to move to */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
@@ -1145,6 +1149,10 @@ MCStepKState(int K,
   int move_in;
   int k;
 
+  /* With a single node in each set there is nowhere to move to */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
-- 
2.43.0


From 2f9b118d41f3f9cd992f0e118f107be8b15a7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 42/85] fix: recommender Metropolis chains are not periodic on
 sets of two nodes

---
 src/recommend.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/recommend.c b/src/recommend.c
index e8de77a..330c2d1 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -310,6 +310,12 @@ MCStep2State(int factor,
   /* The moves */
   for (move=0; move<(nnod1+nnod2)*factor; move++) {
 
+    /* With two nodes at most in each set every move toggles a
+       partition: stay put half of the times, or the chain may be
+       periodic and miss half of the partitions */
+    if (nnod1 < 3 && nnod2 < 3 && gsl_rng_uniform(gen) < 0.5)
+      continue;
+
     /* The move */
     if (gsl_rng_uniform(gen) < set_ratio) { /* move in first set */
       move_in = 1;
@@ -1159,6 +1165,12 @@ MCStepKState(int K,
   /* The moves */
   for (move=0; move<(nnod1+nnod2)*factor; move++) {
 
+    /* With two nodes at most in each set every move toggles a
+       partition: stay put half of the times, or the chain may be
+       periodic and miss half of the partitions */
+    if (nnod1 < 3 && nnod2 < 3 && gsl_rng_uniform(gen) < 0.5)
+      continue;
+
     /* The move */
     if (gsl_rng_uniform(gen) < set_ratio) { /* move in first set */
       move_in = 1;
-- 
2.43.0


From 559bb1927be538e26f9ffefe44c680a007109e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 43/85] fix: programs check that they got all of their
 arguments

---
 multiblock/main_reliability_links_mb.c            | 2 +-
 multiblock/main_reliability_links_mb_OR.c         | 2 +-
 multiblock/main_reliability_links_mb_gibbs.c      | 4 ++--
 multiblock/main_reliability_links_mb_gibbs_OR.c   | 4 ++--
 only_deg/main_only_degeneration_mb.c              | 4 ++--
 only_deg/main_only_degeneration_mb_gibbs.c        | 4 ++--
 recommender/main_multi_recommend_2.c              | 2 +-
 recommender/main_multi_recommend_k.c              | 2 +-
 recommender/main_multi_recommend_k_gibbs.c        | 2 +-
 reliability/main_reliability_links.c              | 2 +-
 reliability/main_reliability_links_gibbs.c        | 2 +-
 reliability/main_reliability_links_gibbs_sparse.c | 4 ++--
 reliability/main_reliability_links_k.c            | 2 +-
 utils/main_netrandomize.c                         | 2 +-
 14 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 4df38e4..d166f06 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 533564b..864186a 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return -1;
   }
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3480993..ec6c04d 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a4ab09d..b7e0b27 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 0eb3bcc..3c0d1dd 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 79d49df..16880d6 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -30,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 4c702a7..c4e2e81 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   double *scores;
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: multi_recommend_2.out observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index bd5f603..16a01e7 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k.out K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index ab54b04..aa48c9a 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k_gibbs K observation_file query_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 547ddbe..2924baf 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 64eef2c..9b24aaa 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index e20bf8c..8475dda 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -31,9 +31,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7b6c31d..79edad3 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -34,7 +34,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: reliability_links_k K net_file seed\n\n");
     return -1;
   }
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 80d52e4..eee87b7 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -26,7 +26,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netrandomize.out net_file seed\n\n");
     return -1;
   }
-- 
2.43.0


From 12443cd622032044cf2111f6b93e2781c87013b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 44/85] fix: modularbipart builds teams of the size it is asked
 for

---
 utils/main_modularbipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index c8514b2..b50a7c0 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -36,7 +36,7 @@ main(int argc, char **argv)
 
   /* Build the network */
   binet = BuildModularBipartiteNetwork(NULL, modSize, nMod, NULL,
-				       nTeam, modSize, modSize, -1.,
+				       nTeam, teamSize, teamSize, -1.,
 				       teamHomog, randGen);
   FPrintPajekFileBipart ("binet.net", binet, 0, 0);
 
-- 
2.43.0


From a6ada86026cd97a9c5c7ef817e226d33767c7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:24 +0000
Subject: [PATCH 45/85] fix: netprop copes with networks of any number of
 components

---
 utils/main_netprop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 1479434..63683f4 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -15,7 +15,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *infile=NULL;
   struct node_gra *net=NULL;
-  struct node_gra *components[1000];
+  struct node_gra **components;
   int i,ncomponents,sizeGC=0,sizeothers=0;
 /*   struct prng *rand_gen; */
 /*   int seed; */
@@ -39,6 +39,8 @@ main(int argc, char **argv)
     Calculate and print a variety of network properties
   */
   /* Calculate the size of the giant component and the number of components */
+  components = (struct node_gra **) calloc(CountNodes(net) + 1,
+					   sizeof(struct node_gra *));
   ncomponents = GetAllConnectedSets(net,components);
   for(i=0;i<ncomponents;i++)
   {
-- 
2.43.0


From d7d304d3d2807d29d5c127d36c822e5fe8fec3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 46/85] fix: NormalizeCoordinates gives 0, not NaN, along axes
 in which all nodes coincide

---
 src/layout.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 3c78de9..15d1dd6 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -270,8 +270,10 @@ void NormalizeCoordinates(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
+    temp->coorX = (xmax > xmin) ?
+      (temp->coorX - xmin) / (xmax - xmin) : 0.0;
+    temp->coorY = (ymax > ymin) ?
+      (temp->coorY - ymin) / (ymax - ymin) : 0.0;
   }
 }
 
@@ -309,9 +311,12 @@ void NormalizeCoordinates3D(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
-    temp->coorZ = (temp->coorZ - zmin) / (zmax - zmin);
+    temp->coorX = (xmax > xmin) ?
+      (temp->coorX - xmin) / (xmax - xmin) : 0.0;
+    temp->coorY = (ymax > ymin) ?
+      (temp->coorY - ymin) / (ymax - ymin) : 0.0;
+    temp->coorZ = (zmax > zmin) ?
+      (temp->coorZ - zmin) / (zmax - zmin) : 0.0;
   }
 }
 
-- 
2.43.0


From 36d92814fb8bf8d9a97962ca05df9227492f15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 47/85] fix: AssignBox puts the nodes in a box when they all
 share a coordinate

---
 src/layout.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 15d1dd6..8d2ab96 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -336,8 +336,8 @@ int AssignBox(struct node_gra *node, int nbox,
   ymax = ymax + (ymax - ymin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
+  normx = (xmax > xmin) ? (node->coorX - xmin) / (xmax - xmin) : 0.0;
+  normy = (ymax > ymin) ? (node->coorY - ymin) / (ymax - ymin) : 0.0;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
 
@@ -758,9 +758,9 @@ int AssignBox3D(struct node_gra *node, int nbox,
   zmax = zmax + (zmax - zmin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
-  normz = (node->coorZ - zmin) / (zmax - zmin);
+  normx = (xmax > xmin) ? (node->coorX - xmin) / (xmax - xmin) : 0.0;
+  normy = (ymax > ymin) ? (node->coorY - ymin) / (ymax - ymin) : 0.0;
+  normz = (zmax > zmin) ? (node->coorZ - zmin) / (zmax - zmin) : 0.0;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
   intz = floor(normz * (double)nbox);
-- 
2.43.0


From ef7c59ae4422f9011fb11b2affa50be36fb9cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 48/85] fix: PotentialEnergy3D adds up the repulsion in all of
 the boxes

---
 src/layout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout.c b/src/layout.c
index 8d2ab96..21afe19 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -839,7 +839,7 @@ double PotentialEnergy3D(struct node_gra *net,
 
   // Electrostatic interaction with all other nodes in neighboring
   // boxes
-  nbox = boxprow * boxprow;
+  nbox = boxprow * boxprow * boxprow;
   for (box=0; box<nbox; box++) {
     
     // Neighboring boxes
-- 
2.43.0


From 272a485d4e0fbe02a3b33d0e4711631779de6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 49/85] fix: multinetlayout without arguments does not declare
 an empty array

---
 utils/main_multinetlayout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index 63fdae0..f79abf4 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -13,7 +13,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *inFile;
   int i, nnet = argc - 1;
-  struct node_gra *net[nnet];
+  struct node_gra *net[argc];
   struct node_gra *net_sum = NULL, *new_net_sum = NULL;
   gsl_rng *rand_gen;
 
-- 
2.43.0


From ae31d0377ab59318a3561dcaa2f75f883e9e09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 50/85] fix: AssignBox does not place nodes outside the boxes
 by rounding

---
 src/layout.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 21afe19..3c0b6c6 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -339,7 +339,11 @@ int AssignBox(struct node_gra *node, int nbox,
   normx = (xmax > xmin) ? (node->coorX - xmin) / (xmax - xmin) : 0.0;
   normy = (ymax > ymin) ? (node->coorY - ymin) / (ymax - ymin) : 0.0;
   intx = floor(normx * (double)nbox);
+  if (intx >= nbox) // by rounding, when all the nodes are very close
+    intx = nbox - 1;
   inty = floor(normy * (double)nbox);
+  if (inty >= nbox) // by rounding, when all the nodes are very close
+    inty = nbox - 1;
 
   return inty * nbox + intx;
 }
@@ -762,8 +766,14 @@ int AssignBox3D(struct node_gra *node, int nbox,
   normy = (ymax > ymin) ? (node->coorY - ymin) / (ymax - ymin) : 0.0;
   normz = (zmax > zmin) ? (node->coorZ - zmin) / (zmax - zmin) : 0.0;
   intx = floor(normx * (double)nbox);
+  if (intx >= nbox) // by rounding, when all the nodes are very close
+    intx = nbox - 1;
   inty = floor(normy * (double)nbox);
+  if (inty >= nbox) // by rounding, when all the nodes are very close
+    inty = nbox - 1;
   intz = floor(normz * (double)nbox);
+  if (intz >= nbox) // by rounding, when all the nodes are very close
+    intz = nbox - 1;
 
   return intz * nbox * nbox + inty * nbox + intx;
 }
-- 
2.43.0


From 883872812cfbeddc0c5dd19813bcae3307efb2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 51/85] fix: ArrangeComponents starts from the real centers of
 the components

---
 src/layout.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout.c b/src/layout.c
index 3c0b6c6..566f6dd 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -149,6 +149,7 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
       g = g->next;
       glist[g->label] = g;
       dxtot[g->label] = dytot[g->label] = 0.0;
+      xce[g->label] = yce[g->label] = 0.0;
 
       // Find the center of the component and of the network
       node = g->nodeList;
-- 
2.43.0


From 1046c6b85d9d57025c802fc77415a1d6c4521bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 52/85] fix: FReadPartition neither overruns its separator nor
 reads it before it is set

---
 src/modules.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 9b8cdc8..53f43c1 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -123,13 +123,15 @@ FReadPartition(FILE *inF){
   g = CreateGroup(part, npart);
 
   while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+	sep[0] = '\0';
+	nfields=fscanf(inF,"%[^\t\n]%1[\t\n]",&label,&sep);
+	if (nfields > 0)
 	  AddNodeToGroupSoft(g, label);
-	  if(sep[0]=='\n'){
-		npart++;
-		g = CreateGroup(part, npart);
-	  }
+	else if (nfields == 0)  /* nothing before the separator */
+	  sep[0] = fgetc(inF);
+	if(sep[0]=='\n' && g->size > 0){
+	  npart++;
+	  g = CreateGroup(part, npart);
 	}
   }
   return(part);
-- 
2.43.0


From 3cbc7b390a092385a75d843b30dc74e98298d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 53/85] fix: CalculateDecay does not iterate a solver that
 could not be started

---
 src/missing.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index f1448b5..3dd3062 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -79,16 +79,19 @@ CalculateDecay(int nnod, double x1, double y1, double x2, double y2)
   
   T = gsl_multiroot_fsolver_hybrids;
   s = gsl_multiroot_fsolver_alloc (T, n);
-  gsl_multiroot_fsolver_set (s, &f, x);
-  do
-    {
-      iter++;
-      status = gsl_multiroot_fsolver_iterate (s);
-      if (status)   /* check if solver is stuck */
-	break;
-      status =gsl_multiroot_test_residual(s->f, 1e-7);
-    }
-  while (status == GSL_CONTINUE && iter < 1000);
+  status = gsl_multiroot_fsolver_set (s, &f, x);
+  if (status)   /* no first step: only the initial guess can be used */
+    status = gsl_multiroot_test_residual(s->f, 1e-7);
+  else
+    do
+      {
+	iter++;
+	status = gsl_multiroot_fsolver_iterate (s);
+	if (status)   /* check if solver is stuck */
+	  break;
+	status =gsl_multiroot_test_residual(s->f, 1e-7);
+      }
+    while (status == GSL_CONTINUE && iter < 1000);
   
 /*   fprintf(stderr, "# GSL status = %s\n", gsl_strerror(status)); */
   if (strcmp(gsl_strerror(status), "success") != 0)
-- 
2.43.0


From 6589691cf083e50c8e47354178e3771a099f775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 54/85] fix: Assortativity does not overflow in networks with
 hubs

---
 src/graph.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 8ddd6f6..08f485d 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2383,8 +2383,8 @@ Assortativity(struct node_gra *net)
   struct node_gra *p;
   struct node_lis *li;
   int *deg;
-  int jk,jpk,j2pk2;
-  int M;
+  double jk,jpk,j2pk2;
+  double M;
   double r;
 
   // Initialize variables
@@ -2406,10 +2406,10 @@ Assortativity(struct node_gra *net)
   while ((p = p->next) != NULL) {
     li = p->neig;
     while ((li = li->next) != NULL) {
-      jk += deg[p->num] * deg[(li->ref)->num];
-      jpk += deg[p->num] + deg[(li->ref)->num];
-      j2pk2 += deg[p->num] * deg[p->num] + 
-	deg[(li->ref)->num] * deg[(li->ref)->num];
+      jk += (double)deg[p->num] * deg[(li->ref)->num];
+      jpk += (double)deg[p->num] + deg[(li->ref)->num];
+      j2pk2 += (double)deg[p->num] * deg[p->num] + 
+	(double)deg[(li->ref)->num] * deg[(li->ref)->num];
     }
   }
 
-- 
2.43.0


From fe2dc678dd75e05037467998181c2c28def8f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 55/85] fix: AverageSquaredDegree does not overflow in networks
 with hubs

---
 src/graph.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 08f485d..10a499e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1441,15 +1441,16 @@ double
 AverageSquaredDegree(struct node_gra *root)
 {
   struct node_gra *p=root;
-  int k, nnod=0, k2sum=0;
+  int k, nnod=0;
+  double k2sum=0.0;
 
   while ((p = p->next) != NULL) {
     nnod++;
     k = NodeDegree(p);
-    k2sum += k * k;
+    k2sum += (double)k * k;
   }
 
-  return (double)k2sum / (double)nnod;
+  return k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From e88abc4fd6befe63dbb14f4a5a08945deebea1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 56/85] fix: the clustering coefficients do not overflow in
 networks with hubs

---
 src/graph.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 10a499e..4aa6dd5 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1818,7 +1818,7 @@ ClusteringCoefficient(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       C_v = CalculateLinksBetweenNeig(list,root);
-      C_av += (double)C_v/(double)(k_v*(k_v-1));
+      C_av += (double)C_v/((double)k_v*(double)(k_v-1));
     }
     else {
       nodes--;
@@ -1843,7 +1843,7 @@ ClusteringCoefficient2(struct node_gra *root)
   int nodes,*size,res_size;
   struct node_bfs *list;
   struct node_gra *p = root;
-  int tri,ctr;  //#triangles and #connected triplets
+  double tri,ctr;  //#triangles and #connected triplets
   int k_v;
   double C;
 
@@ -1866,14 +1866,14 @@ ClusteringCoefficient2(struct node_gra *root)
     if(k_v>1){
       p->state = 0;
       tri += CalculateLinksBetweenNeig(list,root);
-      ctr += k_v*(k_v-1);
+      ctr += (double)k_v*(double)(k_v-1);
     }
     else
       nodes--;
     ClearList(list,size);
   }
 
-  C = (double)tri/(double)ctr;
+  C = tri/ctr;
 
   free(list);
   return C;
-- 
2.43.0


From 945a9e633c46b951299c7ec9cd21252b841a8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 57/85] fix: CalculateNodeBetweenness counts more than 2^31
 shortest paths

---
 src/graph.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 4aa6dd5..38a59b9 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2268,8 +2268,8 @@ CalculateNodeBetweenness(struct node_gra *net)
   struct stack *S;
   struct queue *Q;
   struct queue **P;
-  int *sigma, *d;
-  double *delta;
+  int *d;
+  double *sigma, *delta;
   int nnod = CountNodes(net);
   int i;
 
@@ -2283,17 +2283,17 @@ CalculateNodeBetweenness(struct node_gra *net)
   while ((s = s->next) != NULL) {
     S = stack_create();
     P = (struct queue **)calloc(nnod, sizeof(struct queue *));
-    sigma = allocate_i_vec(nnod);
+    sigma = allocate_d_vec(nnod);
     d = allocate_i_vec(nnod);
     delta = allocate_d_vec(nnod);
     Q = queue_create();
     for (i=0; i<nnod; i++) {
       P[i] = queue_create();
-      sigma[i] = 0;
+      sigma[i] = 0.0;
       d[i] = -1;
       delta[i] = 0.0;
     }
-    sigma[s->num] = 1;
+    sigma[s->num] = 1.0;
     d[s->num] = 0;
     queue_enqueue(Q, (void *)s);
     while (!queue_empty(Q)) {
@@ -2332,7 +2332,7 @@ CalculateNodeBetweenness(struct node_gra *net)
       queue_free(P[i]);
     }
     free(P);
-    free_i_vec(sigma);
+    free_d_vec(sigma);
     free_i_vec(d);
     free_d_vec(delta);
     queue_free(Q);
-- 
2.43.0


From 243aeb862d86b4e32e180e5d8baf4186b75a9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 58/85] fix: MutualInformation does not overflow for large
 networks

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 53f43c1..652dff7 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1666,8 +1666,8 @@ MutualInformation(struct group *part1, struct group *part2, int label_sw)
 	    }
 	  } /* Overlap size S12 has been calculated */
 	  if (S12 > 0)
-	    H12 += (double)S12 * log((double)(S12 * S) /
-				 (double)(S1 * S2));
+	    H12 += (double)S12 * log((double)S12 * (double)S /
+				 ((double)S1 * (double)S2));
 	}
       }
     }
-- 
2.43.0


From 8866367577c3d39668f7115fe335f22aa386061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 59/85] fix: the block model does not overflow in networks with
 many links

---
 src/modules.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 652dff7..1c593a7 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -756,7 +756,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
       }
     }
   }
-  prob = 2.0 * (double)links / (double)(nodes * (nodes - 1));
+  prob = 2.0 * (double)links / ((double)nodes * (double)(nodes - 1));
 
   /* Calculate and print the blockmodel */
   g1 = part;
@@ -783,33 +783,33 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	  case 'p':
 	    if (g1 == g2)
 	      bij = 2.0 * (double)NG2GLinks(g1, g2) /
-		(double)(g1->size * (g1->size - 1));
+		((double)g1->size * (double)(g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-		(double)(g1->size * g2->size);
+		((double)g1->size * (double)g2->size);
 	    break;
 	  case 'e':
 	    if (g1 == g2)
 	      bij = (double)g1->inlinks / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(4.0 * (double)links * (double)links);
 	    else
 	      bij = (double)NG2GLinks(g1, g2) / (double)links -
-		(double)((g1->inlinks + g1->totlinks) *
-			 (g2->inlinks + g2->totlinks)) /
-		((double)(4 * links * links));
+		(double)(g1->inlinks + g1->totlinks) *
+		(double)(g2->inlinks + g2->totlinks) /
+		(4.0 * (double)links * (double)links);
 	    break;
 	  case 'z':
 	    if (g1 == g2) {
-	      av = prob * (double)(g1->size * (g1->size - 1) / 2.0);
-	      sig = sqrt((double)(g1->size * (g1->size - 1) / 2.0) *
+	      av = prob * ((double)g1->size * (double)(g1->size - 1) / 2.0);
+	      sig = sqrt(((double)g1->size * (double)(g1->size - 1) / 2.0) *
 			 prob * (1.0 - prob));
 	      bij = ((double)g1->inlinks - av) / sig;
 	    }
 	    else {
-	      av = prob * (double)(g1->size * g2->size);
-	      sig = sqrt((double)(g1->size * g2->size) * prob * (1.0 - prob));
+	      av = prob * (double)g1->size * (double)g2->size;
+	      sig = sqrt((double)g1->size * (double)g2->size * prob * (1.0 - prob));
 	      bij = ((double)NG2GLinks(g1, g2) - av) / sig;
 	    }
 	    break;
-- 
2.43.0


From 22ca46d9cd56230545253efdba4fc6f10fff40e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 60/85] fix: GeneralSA does not overflow for large networks

---
 src/sannealing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 665cefb..5d26593 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -58,10 +58,10 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
 
   // Get the number of individual and collective movements.
-  if (fac * (double)(part->N * part->N) < 10)
+  if (fac * ((double)part->N * (double)part->N) < 10)
 	individual_movements = 10;
   else
-	individual_movements = floor(fac * (double)(part->N * part->N));
+	individual_movements = floor(fac * ((double)part->N * (double)part->N));
   if (fac * (double)part->N < 2)
 	collective_movements = 2;
   else
-- 
2.43.0


From 958d5666e5941941f250cc036bc5079cf147c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 61/85] fix: ModularityBipart does not overflow for large teams

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 5f57575..5a4897c 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -858,7 +858,7 @@ ModularityBipart(struct binet *binet, struct group *part)
   /* Calculate sms=sum(m_s) and sms2=sum(m_s^2) */
   while ((p = p->next) != NULL) {
     sms += (double)NodeDegree(p);
-    sms2 += (double)(NodeDegree(p) * NodeDegree(p));
+    sms2 += (double)NodeDegree(p) * (double)NodeDegree(p);
   }
   s2ms = sms * sms;
 
@@ -872,7 +872,7 @@ ModularityBipart(struct binet *binet, struct group *part)
         t1 = NodeDegree(n1->ref);
         t2 = NodeDegree(n2->ref);
 
-	      bimod += (double)c12 / (sms2 - sms) - (double)(t1 * t2) / s2ms;
+	      bimod += (double)c12 / (sms2 - sms) - (double)t1 * (double)t2 / s2ms;
       }
     }
   }
-- 
2.43.0


From dded9039c2cbf0012065ace0ab0d0b4029cc1bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 62/85] fix: ParticipationCoefficient, SACommunityIdent and
 block model products do not overflow

---
 src/modules.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 1c593a7..9845eee 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -808,7 +808,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	      bij = ((double)g1->inlinks - av) / sig;
 	    }
 	    else {
-	      av = prob * (double)g1->size * (double)g2->size;
+	      av = prob * ((double)g1->size * (double)g2->size);
 	      sig = sqrt((double)g1->size * (double)g2->size * prob * (1.0 - prob));
 	      bij = ((double)NG2GLinks(g1, g2) - av) / sig;
 	    }
@@ -1872,7 +1872,7 @@ ParticipationCoefficient(struct node_gra *node)
   if (nlink != 0) {
     while ((nei = nei->next) != NULL) {
       toGroup = NLinksToGroupByNum(node, nei->ref->inGroup);
-      P += (double)toGroup / (double)(nlink * nlink);
+      P += (double)toGroup / ((double)nlink * (double)nlink);
     }
     P = 1.0 - P;
   }
@@ -2369,10 +2369,10 @@ SACommunityIdent(struct node_gra *net,
     Determine the number of iterations at each temperature
     -------------------------------------------------------------------
   */
-  if (fac * (double)(nnod * nnod) < 10)
+  if (fac * ((double)nnod * (double)nnod) < 10)
     cicle1 = 10;
   else
-    cicle1 = floor(fac * (double)(nnod * nnod));
+    cicle1 = floor(fac * ((double)nnod * (double)nnod));
   if (ngroup < 2)
     cicle1 = 0;   /* there is no other group to move a node to */
 
-- 
2.43.0


From f83404d5ce6572132a7fefa743f88fa92fbd9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 63/85] fix: the distance histograms have room for paths of any
 length

---
 src/graph.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 38a59b9..51f52d6 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1500,7 +1500,8 @@ NodeStrength(struct node_gra *node)
 void
 FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 {
-  double histogram[10000];
+  int nhist = CountNodes(root) + 2;
+  double *histogram = allocate_d_vec(nhist);
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p = root;
   struct node_bfs *list, *lp;
@@ -1511,7 +1512,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  for(i = 0;i<nhist;i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1545,7 +1546,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   // Output the histogram
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nhist;i++){
     if(histogram[i] != 0.0){
       fprintf(file,"%d %lf\n",i,histogram[i]/(double)(nodes-1));
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1558,6 +1559,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   free_i_mat(max_dis_pairs, CountNodes(root));
   free(list);
+  free_d_vec(histogram);
 }
 
 // ---------------------------------------------------------------------
@@ -1569,7 +1571,8 @@ FPrintDistanceHistogramFromNode(FILE *file,
 				struct node_gra *root,
 				int orinode)
 {
-  double histogram[10000];
+  int nhist = CountNodes(root) + 2;
+  double *histogram = allocate_d_vec(nhist);
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1577,7 +1580,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  for(i = 0;i<nhist;i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1612,7 +1615,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nhist;i++){
     if(histogram[i] != 0.0){
 /*       fprintf(file,"%d %lf\n",i,histogram[i]); */
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1624,6 +1627,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
   fprintf(file,"#z = %lf\n",histogram[1]);
 
   free(list);
+  free_d_vec(histogram);
 }
 
 // ---------------------------------------------------------------------
@@ -1632,7 +1636,8 @@ FPrintDistanceHistogramFromNode(FILE *file,
 double
 AveragePathLength(struct node_gra *root)
 {
-  double histogram[10000];
+  int nhist = CountNodes(root) + 2;
+  double *histogram = allocate_d_vec(nhist);
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p=root;
   struct node_bfs *list,*lp;
@@ -1640,7 +1645,7 @@ AveragePathLength(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  for(i = 0;i<nhist;i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1672,6 +1677,7 @@ AveragePathLength(struct node_gra *root)
       printf("Sorry, the network is not connected!\n");
       ClearList(list,size);
       free(list);
+      free_d_vec(histogram);
       return -1;
     }
 
@@ -1679,13 +1685,14 @@ AveragePathLength(struct node_gra *root)
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nhist;i++){
     if(histogram[i] != 0.0){
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
     }
   }
 
   free(list);
+  free_d_vec(histogram);
 
   return av_dis;
 }
@@ -1697,7 +1704,8 @@ AveragePathLength(struct node_gra *root)
 double
 AverageInverseDistance(struct node_gra *root)
 {
-  double histogram[10000];
+  int nhist = CountNodes(root) + 2;
+  double *histogram = allocate_d_vec(nhist);
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1705,7 +1713,7 @@ AverageInverseDistance(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0; i<10000; i++)
+  for(i = 0; i<nhist; i++)
     histogram[i] = 0.0;
 
   counter = 0;
@@ -1738,13 +1746,14 @@ AverageInverseDistance(struct node_gra *root)
 
   // Calculate the average inverse distance
   av_dis = norm = 0.0;
-  for(i = 0; i<10000; i++){
+  for(i = 0; i<nhist; i++){
     if(histogram[i] !=  0.0){
       av_dis +=  histogram[i]/(double)( i * (nodes-1) );
     }
   }
 
   free(list);
+  free_d_vec(histogram);
 
   return av_dis;
 }
-- 
2.43.0


From 078eb5f2a272a794e4443c340d50760f0fe25b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:36 +0000
Subject: [PATCH 64/85] fix: GetAllConnectedSets copes with networks of more
 than 10001 nodes

---
 src/graph.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 51f52d6..70c2f59 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2910,7 +2910,12 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   int d;
 
   int numComponents=0;
-  int MAX_SIZE_NET=10001;
+  int MAX_SIZE_NET=1;
+
+  p=network;
+  while((p=p->next)!=NULL)
+    if(p->num>=MAX_SIZE_NET)
+      MAX_SIZE_NET=p->num+1;
 
   selected=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
   thisNet=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
-- 
2.43.0


From 4a41167ec4cfc5741d911deaf8710e98593fd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 65/85] fix: SACommunityIdent is declared for the programs that
 call it

---
 src/modules.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules.h b/src/modules.h
index ed30750..cea7849 100644
--- a/src/modules.h
+++ b/src/modules.h
@@ -156,6 +156,14 @@ double CorrectlyClassified(struct group *refpart,
 */
 double Modularity(struct group *part);
 double ModularityWeight(struct group *part);
+struct group *SACommunityIdent(struct node_gra *net,
+			       double Ti, double Tf, double Ts,
+			       double fac,
+			       int ngroup,
+			       char initial_sw,
+			       int collective_sw,
+			       char output_sw,
+			       gsl_rng *gen);
 
 /*
   ---------------------------------------------------------------------
-- 
2.43.0


From 233ee60d472401d9f8f8be774a01474198942591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 66/85] fix: netcarto-legacy asks for its parameters without
 overwriting memory

---
 netcarto/main_netcarto_legacy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 8e9718e..83aef49 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -23,7 +23,7 @@
 int
 main(int argc, char **argv)
 {
-  long seed = 1111;
+  int seed = 1111;
   FILE *inFile,*outFile;
   struct node_gra *net = NULL;
   struct node_gra *netran = NULL;
@@ -40,6 +40,7 @@ main(int argc, char **argv)
   double Tsched = 0.995, Tf = 0.0;
   double iterfac = 1.0;
   gsl_rng *rand_gen;
+  char netName[1000];
   char *netF;
   /*
     ------------------------------------------------------------
@@ -53,7 +54,8 @@ main(int argc, char **argv)
   scanf("%d", &seed);
 
   printf("\n# Enter the name of the network file: ");
-  scanf("%s", &netF);
+  scanf("%999s", netName);
+  netF = netName;
 
   printf("\n# Enter iteration factor (recommended 1.0): ");
   scanf("%lf", &iterfac);
-- 
2.43.0


From 022cf19280a74e191e088b8c7cae4a33d69a394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 67/85] fix: netcarto-legacy reads standard input by default
 and stops when its input cannot be read

---
 netcarto/main_netcarto_legacy.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 83aef49..b87b439 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <math.h>
+#include <string.h>
 #include <unistd.h>
 #include <stdlib.h>
  
@@ -41,7 +42,7 @@ main(int argc, char **argv)
   double iterfac = 1.0;
   gsl_rng *rand_gen;
   char netName[1000];
-  char *netF;
+  char *netF = "-";
   /*
     ------------------------------------------------------------
     Prompt for user-defined parameters
@@ -106,9 +107,18 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   */
   fprintf(stderr, "\n# Creating the network\n");
 
-  inFile=fopen(netF,"r");
+  if (strcmp(netF, "-") == 0)
+    inFile = stdin;
+  else {
+    inFile = fopen(netF, "r");
+    if (inFile == NULL) {
+      printf("ERROR: No such file or directory (%s). \n", netF);
+      return 1;
+    }
+  }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
-  fclose(inFile);
+  if (inFile != stdin)
+    fclose(inFile);
 
   S = CountNodes(net);
   fprintf(stderr, "\n# The network has %d nodes\n", S);
-- 
2.43.0


From 233338b593e36bd60192a92f19df9539003d531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 68/85] fix: FBuildNetwork releases what it has read when it
 refuses a file

---
 src/graph.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index 70c2f59..736d3da 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -558,6 +558,9 @@ FBuildNetwork(FILE *inFile,
       noReadItems = sscanf(line, "%s %s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(node_dict);
+		RemoveGraph(root);
 		return NULL;
 	  }
 	  weight = 1;
@@ -566,6 +569,9 @@ FBuildNetwork(FILE *inFile,
       noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(node_dict);
+		RemoveGraph(root);
 		return NULL;
 	  }
     }
-- 
2.43.0


From 306cb05d6e8a5864473550bfe39a9af0d27227bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 69/85] fix: FBuildNetworkBipart releases what it has read when
 it refuses a file

---
 src/bipartite.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bipartite.c b/src/bipartite.c
index 5a4897c..07fe801 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -77,6 +77,11 @@ FBuildNetworkBipart(FILE *inFile,
       noReadItems = sscanf(line, "%s %s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(dict1);
+		FreeLabelDict(dict2);
+		RemoveGraph(root1);
+		RemoveGraph(root2);
 		return NULL;}
 	  weight = 1;
     }
@@ -84,6 +89,11 @@ FBuildNetworkBipart(FILE *inFile,
       noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(dict1);
+		FreeLabelDict(dict2);
+		RemoveGraph(root1);
+		RemoveGraph(root2);
 		return NULL;
 	  }
     }
-- 
2.43.0


From b4ea863855f72ce140971f7e0ce8228f10a4b57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 70/85] fix: EdgeListFileInput releases what it has read when
 it refuses a file

---
 src/io.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io.c b/src/io.c
index 91a99ff..09066e3 100644
--- a/src/io.c
+++ b/src/io.c
@@ -114,6 +114,16 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
     if(noReadItems != noReadItemsExpected){
       printf ("Failed to read input: not enough fields in line %s (%d!=%d). \n",
               line, noReadItems,noReadItemsExpected);
+      free(node1);
+      free(node2);
+      free_node_tree(nodes_root);
+      free_node_tree(nodes_root_bipartite);
+      for (i=0; i<N; i++) free(labels[i]);
+      free(labels);
+      free(weights);
+      free(nodes_in);
+      free(nodes_out);
+      free(line);
       return 1;
     }
 
-- 
2.43.0


From 7cf461a2a6328c03094bc626912c0c7a4035c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 71/85] fix: SquareClustering and OneNodeSquareClustering
 release their queues on every way out

---
 src/graph.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 736d3da..56b62e4 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1930,6 +1930,8 @@ SquareClustering(struct node_gra *root)
     if(*size<totnodes)
       lp = RenewQueue(list,lp,size,0); // First neighbors
     else{ // If the size of the cluster is 1
+      ClearList(list,size);
+      free(list);
       return -1.0;
     }
     k1b = *size-1;
@@ -2031,8 +2033,10 @@ OneNodeSquareClustering(struct node_gra *node,
   size = &res_size;
   list = CreateHeaderList();
   
-  if(NodeDegree(node) == 0)
+  if(NodeDegree(node) == 0){
+    free(list);
     return -1;
+  }
 
   ResetNodesState(root);
     
@@ -2063,11 +2067,17 @@ OneNodeSquareClustering(struct node_gra *node,
       pl = pl->next;
     }
 
-    if(k1<= 1)
+    if(k1<= 1){
+      ClearList(list,size);
+      free(list);
       return -2; // only 1 first neighbor!!
+    }
   }
-  else
+  else{
+    ClearList(list,size);
+    free(list);
     return -3; // all nodes are first neighbors!!
+  }
   
   T = (double)C_v/((double)k2*(double)k1*(double)(k1-1));
 
-- 
2.43.0


From e8de4337e57d8801ceea60fe228e83fe88af45b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 72/85] fix: the connected sets release their working memory

---
 src/graph.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 56b62e4..0a34585 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2723,6 +2723,9 @@ GetLargestStronglyConnectedSet(struct node_gra *root,
       if (maxS > nnod/2 || maxS > thres) {
 	ClearList(list, size);
 	RemoveGraph(root_cop); // WAS COMMENTED OUT?!?!?!?!
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
@@ -2865,7 +2868,10 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
       giant = root_loc;
       if(maxS>nnod/2 || maxS>thres ){
 	ClearList(list,size);
-/* 	RemoveGraph(root_cop); */
+	RemoveGraph(root_cop);
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
@@ -3010,6 +3016,8 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   }while(anod<numNodes);
 
   free(list);
+  free(selected);
+  free(thisNet);
   RemoveGraph(network_cop);
 
   return numComponents;
-- 
2.43.0


From 94fa7c40c001865ab31903963e2872edd02ab199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 73/85] fix: NetworkScore and PartitionSampling release their
 table of factorials

---
 src/missing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 3dd3062..beff79e 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1038,6 +1038,7 @@ NetworkScore(struct node_gra *netTar,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return scoreTar / scoreObs;
 }
@@ -1294,6 +1295,7 @@ PartitionSampling(struct node_gra *net,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return partList;
 }
-- 
2.43.0


From 4f03d2abc3bcf0d27ef7fb978af033dc1c4eaf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 74/85] fix: NetReconstruct releases its link scores and node
 list

---
 src/missing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index beff79e..51ca84d 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1131,8 +1131,10 @@ NetReconstruct(struct node_gra *netObs,
 	RemoveLink(n1Add, n2Add, 1);
       }
     } while(someRejected < thresReject);
+    free_d_mat(linkScores, nnod);
   } while (someChanged == 1);
 
+  free(nlist);
   return net;
 }
 
-- 
2.43.0


From 146a88518b192c291489cb3884868f3b4130850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 75/85] fix: ArrangeComponents releases the displacements of
 the components

---
 src/layout.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 566f6dd..0896f35 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -237,6 +237,8 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     free(xce);
     free(yce);
     free(rad);
+    free(dxtot);
+    free(dytot);
     free(glist);
     RemoveGraph(cnet);
     RemovePartition(part);
-- 
2.43.0


From eff6298a3638cacd9acb925dcc1a5d95ace50efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 76/85] fix: SACommunityIdent saves no partition when there is
 none (network without links)

---
 src/modules.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 9845eee..9f69e9b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2616,13 +2616,12 @@ SACommunityIdent(struct node_gra *net,
     /* Save the partition to a file if necessary */
     switch (output_sw) {
     case 'b':
-      outf = fopen("part.tmp", "w");
-      FPrintPartition(outf, best_part, 1);
-      fclose(outf);
     case 's':
-      outf = fopen("part.tmp", "w");
-      FPrintPartition(outf, best_part, 1);
-      fclose(outf);
+      if (best_part != NULL) {   /* there is none without links */
+	outf = fopen("part.tmp", "w");
+	FPrintPartition(outf, best_part, 1);
+	fclose(outf);
+      }
     default:
       break;
     }
-- 
2.43.0


From 106f67fabec93001db4f8894f36bceca7c36c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:29 +0000
Subject: [PATCH 77/85] fix: Gibbs steps choose a destination for any gain of
 energy and any random draw (weights overflowed, a draw of zero ran off the
 list)

---
 src/missing.c        | 18 ++++--------------
 src/multiblock.c     | 36 ++++++++----------------------------
 src/only_deg.c       | 18 ++++--------------
 src/recommend.c      | 15 ++++-----------
 src/sparse_missing.c | 18 ++++--------------
 src/tools.c          | 40 ++++++++++++++++++++++++++++++++++++++++
 src/tools.h          |  2 ++
 7 files changed, 66 insertions(+), 81 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 51ca84d..551d6af 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2054,7 +2054,7 @@ GibbsLinkScoreStep(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dHempty;
   
   /* Preliminaries */
   dH = allocate_d_vec(nnod);
@@ -2070,7 +2070,6 @@ GibbsLinkScoreStep(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
 
     /* What does not depend on the destination group (needed for the
        move to an empty group even if there is no other destination) */
@@ -2204,8 +2203,6 @@ GibbsLinkScoreStep(double *H,
       else { // oldg and newg are the same: nothing changes
 	dH[newgnum] = 0.0;
       }
-
-      norm += exp(-dH[newgnum]);
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -2295,12 +2292,10 @@ GibbsLinkScoreStep(double *H,
 			      LogFactList, LogFactListSize);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
-    
     /** CHOOSE THE MOVE **/
-    dice = norm * gsl_rng_uniform(gen);
+    target = GibbsDestination(dH, slg, slgsize, dHempty, nnod - slgsize, gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (target < 0) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -2308,12 +2303,7 @@ GibbsLinkScoreStep(double *H,
     }
     else {
       /* Select group in shortlist */
-      target = 0;
-      cum = 0.0;
-      while (cum < dice) {
-	cum += exp(-dH[slg[target++]]);
-      }
-      newgnum = slg[target - 1];
+      newgnum = slg[target];
       newg = glist[newgnum];
     }
     
diff --git a/src/multiblock.c b/src/multiblock.c
index 9dad71e..bfee9c4 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1342,7 +1342,7 @@ GibbsLinkScoreStepMB(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dHempty;
   double Href;
   
   /* Preliminaries */
@@ -1360,7 +1360,6 @@ GibbsLinkScoreStepMB(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
 
     /* What does not depend on the destination group (needed for the
        move to an empty group even if there is no other destination) */
@@ -1503,8 +1502,6 @@ GibbsLinkScoreStepMB(double *H,
       else { // oldg and newg are the same: nothing changes
 	dH[newgnum] = 0.0;
       }
-
-      norm += exp(-dH[newgnum]);
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -1600,12 +1597,10 @@ GibbsLinkScoreStepMB(double *H,
       dHempty += LogDegeneracy(effectng) - LogDegeneracy(effectng + 1);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
-    
     /** CHOOSE THE MOVE **/
-    dice = norm * gsl_rng_uniform(gen);
+    target = GibbsDestination(dH, slg, slgsize, dHempty, nnod - slgsize, gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (target < 0) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -1613,12 +1608,7 @@ GibbsLinkScoreStepMB(double *H,
     }
     else {
       /* Select group in shortlist */
-      target = 0;
-      cum = 0.0;
-      while (cum < dice) {
-	cum += exp(-dH[slg[target++]]);
-      }
-      newgnum = slg[target - 1];
+      newgnum = slg[target];
       newg = glist[newgnum];
     }
     
@@ -1991,7 +1981,7 @@ ORGibbsLinkScoreStepMB(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dHempty;
   double Href;
   
   /* Preliminaries */
@@ -2009,7 +1999,6 @@ ORGibbsLinkScoreStepMB(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
 
     /* What does not depend on the destination group (needed for the
        move to an empty group even if there is no other destination) */
@@ -2152,8 +2141,6 @@ ORGibbsLinkScoreStepMB(double *H,
       else { // oldg and newg are the same: nothing changes
 	dH[newgnum] = 0.0;
       }
-
-      norm += exp(-dH[newgnum]);
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -2249,12 +2236,10 @@ ORGibbsLinkScoreStepMB(double *H,
       dHempty += LogDegeneracy(effectng) - LogDegeneracy(effectng + 1);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
-    
     /** CHOOSE THE MOVE **/
-    dice = norm * gsl_rng_uniform(gen);
+    target = GibbsDestination(dH, slg, slgsize, dHempty, nnod - slgsize, gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (target < 0) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -2262,12 +2247,7 @@ ORGibbsLinkScoreStepMB(double *H,
     }
     else {
       /* Select group in shortlist */
-      target = 0;
-      cum = 0.0;
-      while (cum < dice) {
-	cum += exp(-dH[slg[target++]]);
-      }
-      newgnum = slg[target - 1];
+      newgnum = slg[target];
       newg = glist[newgnum];
     }
     
diff --git a/src/only_deg.c b/src/only_deg.c
index 8bec7ad..49e111d 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -702,7 +702,7 @@ GibbsLinkScoreStepMB_OD(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dHempty;
   double Href;
   
   /* Preliminaries */
@@ -720,7 +720,6 @@ GibbsLinkScoreStepMB_OD(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
 
     /* What does not depend on the destination group (needed for the
        move to an empty group even if there is no other destination) */
@@ -863,8 +862,6 @@ GibbsLinkScoreStepMB_OD(double *H,
       else { // oldg and newg are the same: nothing changes
 	dH[newgnum] = 0.0;
       }
-
-      norm += exp(-dH[newgnum]);
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -960,12 +957,10 @@ GibbsLinkScoreStepMB_OD(double *H,
       dHempty += LogDegeneracy_OD(effectng) - LogDegeneracy_OD(effectng + 1);
     }
 
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
-    
     /** CHOOSE THE MOVE **/
-    dice = norm * gsl_rng_uniform(gen);
+    target = GibbsDestination(dH, slg, slgsize, dHempty, nnod - slgsize, gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (target < 0) {
       /* Select an empty group */
       newg = GetEmptyGroup(part);
       newgnum = newg->label;
@@ -973,12 +968,7 @@ GibbsLinkScoreStepMB_OD(double *H,
     }
     else {
       /* Select group in shortlist */
-      target = 0;
-      cum = 0.0;
-      while (cum < dice) {
-	cum += exp(-dH[slg[target++]]);
-      }
-      newgnum = slg[target - 1];
+      newgnum = slg[target];
       newg = glist[newgnum];
     }
     
diff --git a/src/recommend.c b/src/recommend.c
index 330c2d1..964e9fa 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -1944,7 +1944,6 @@ GibbsStepKState(int K,
   int k;
   double dHoo, dHon, dHno, dHnn, dHsam, dHempty;
   int target;
-  double cum=0.0, norm=0.0, dice=0.0;
   /* Shortlist of groups that we consider as possible
      destinations. Groups not in this list are empty for sure, so we
      count all of them together in 1 single step. Note that, during a
@@ -2023,7 +2022,6 @@ GibbsStepKState(int K,
     }
 
     /** FIXED CONTRIBUTIONS FOR THIS NODE **/
-    norm = 0.0;
     dHoo = 0.0;
     dHno = 0.0;
     for (slgn=0; slgn<(*slgothersize); slgn++) {
@@ -2093,7 +2091,6 @@ GibbsStepKState(int K,
 	dH[newgnum] = 0.0;
       else
 	dH[newgnum] = -dHoo + dHno - dHon + dHnn + dHsam;
-      norm += exp(-dH[newgnum]);
     }
 
     /** DH FOR AN EMPTY DESTINATION GROUP FOR THIS NODE **/
@@ -2122,11 +2119,11 @@ GibbsStepKState(int K,
       dHsam = 0.0;
     /* total energy change for this move and normalization */
     dHempty = -dHoo + dHno - dHon + dHnn + dHsam;
-    norm += (ngroupnode - (*slgsize)) * exp(-dHempty);
 
     /** CHOOSE THE MOVE **/
-    dice = norm * gsl_rng_uniform(gen);
-    if (dice > (norm - (ngroupnode - (*slgsize)) * exp(-dHempty))) {
+    target = GibbsDestination(dH, slg, *slgsize, dHempty,
+			      ngroupnode - (*slgsize), gen);
+    if (target < 0) {
       /* Select an empty group */
       newg = GetEmptyGroup(grootnode);
       newgnum = newg->label;
@@ -2141,11 +2138,7 @@ GibbsStepKState(int K,
     }
     else {
       /* Select group in shortlist */
-      target = 0;
-      cum = 0.0;
-      while (cum < dice)
-	cum += exp(-dH[slg[target++]]);
-      newgnum = slg[target - 1];
+      newgnum = slg[target];
       newg = (*glistnode)[newgnum];
     }
 
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index 83992cd..a960a09 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -105,7 +105,7 @@ SparseGibbsLinkScoreStep(double *H,
   int *slg=NULL;
   int slgn, slgsize, isinlist;
   int newgn, target;
-  double dice, norm, dHempty, cum;
+  double dHempty;
  
   /* Preliminaries */
   dH = allocate_d_vec(nnod);
@@ -121,7 +121,6 @@ SparseGibbsLinkScoreStep(double *H,
     node = nlist[move];
     oldgnum = node->inGroup;
     oldg = glist[oldgnum];
-    norm = 0.0;
 
     /* What does not depend on the destination group (needed for the
        move to an empty group even if there is no other destination) */
@@ -229,8 +228,6 @@ SparseGibbsLinkScoreStep(double *H,
       else { // oldg and newg are the same: nothing changes
 	dH[newgnum] = 0.0;
       }
-
-      norm += exp(-dH[newgnum]);
     }
 
     /** Calculate the change of energy to go to an empty group **/
@@ -298,12 +295,10 @@ SparseGibbsLinkScoreStep(double *H,
 			      LogFactList, LogFactListSize);
     }
     
-    norm += exp(-dHempty) * (double)(nnod - slgsize);
-    
     /** CHOOSE THE MOVE **/
-    dice = norm * gsl_rng_uniform(gen);
+    target = GibbsDestination(dH, slg, slgsize, dHempty, nnod - slgsize, gen);
 
-    if (dice > (norm - (double)(nnod - slgsize) * exp(-dHempty))) {
+    if (target < 0) {
       /* fprintf(stderr, "Move not in shortlist\n"); */
       /* Select an empty group */
       newg = GetEmptyGroup(part);
@@ -313,12 +308,7 @@ SparseGibbsLinkScoreStep(double *H,
     else {
       /* fprintf(stderr, "Move in shortlist\n"); */
       /* Select group in shortlist */
-      target = 0;
-      cum = 0.0;
-      while (cum < dice) {
-	cum += exp(-dH[slg[target++]]);
-      }
-      newgnum = slg[target - 1];
+      newgnum = slg[target];
       newg = glist[newgnum];
     }
     
diff --git a/src/tools.c b/src/tools.c
index 4b05dc3..18e357e 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -216,6 +216,46 @@ geometric_dist_val(double p, gsl_rng *gen)
   return val;
 }
 
+/*
+  ---------------------------------------------------------------------
+  Choose the destination of a Gibbs move. The weight of slg[i] is
+  exp(-dH[slg[i]]), and that of each of the nempty equivalent groups
+  which are not in the list is exp(-dHempty). Returns the position of
+  the chosen group in slg, or -1 for one of the nempty others. Weights
+  are relative to the largest one, since they can be too large for a
+  double.
+  ---------------------------------------------------------------------
+*/
+int
+GibbsDestination(double *dH, int *slg, int slgsize,
+		 double dHempty, int nempty, gsl_rng *gen)
+{
+  int i;
+  double dHmin, norm=0.0, dice, cum;
+
+  dHmin = (nempty > 0) ? dHempty : dH[slg[0]];
+  for (i=0; i<slgsize; i++)
+    if (dH[slg[i]] < dHmin)
+      dHmin = dH[slg[i]];
+
+  for (i=0; i<slgsize; i++)
+    norm += exp(dHmin - dH[slg[i]]);
+  if (nempty > 0)
+    dice = (norm + nempty * exp(dHmin - dHempty)) * gsl_rng_uniform(gen);
+  else
+    dice = norm * gsl_rng_uniform(gen);
+  if (dice >= norm)
+    return -1;
+
+  cum = 0.0;
+  for (i=0; i<slgsize; i++) {
+    cum += exp(dHmin - dH[slg[i]]);
+    if (dice < cum)
+      return i;
+  }
+  return slgsize - 1;
+}
+
 /*
   ---------------------------------------------------------------------
   ---------------------------------------------------------------------
diff --git a/src/tools.h b/src/tools.h
index 4ae61d6..883dc04 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -30,6 +30,8 @@ void free_d_mat(double **data, int nrows);
   ---------------------------------------------------------------------
 */
 int geometric_dist_val(double p, gsl_rng *gen);
+int GibbsDestination(double *dH, int *slg, int slgsize,
+		     double dHempty, int nempty, gsl_rng *gen);
 
 /*
   ---------------------------------------------------------------------
-- 
2.43.0


From f1aa94750531d8f44cb01338c75ad15ad1d3f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 78/85] fix: SAGroupSplit merges two clusters whatever the draw
 (a draw of zero selected the header)

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 9f69e9b..7a7153c 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2158,9 +2158,9 @@ SAGroupSplit(struct group *targ,
     /* Merge groups randomly until only two are left */
     while (ngroups > 2) {
       /* Select two random groups */
-      g1 = ceil(gsl_rng_uniform(gen)* (double)ngroups);
+      g1 = 1 + floor(gsl_rng_uniform(gen) * (double)ngroups);
       do {
-	g2 = ceil(gsl_rng_uniform(gen)* (double)ngroups);
+	g2 = 1 + floor(gsl_rng_uniform(gen) * (double)ngroups);
       } while (g2 == g1);
       
       glist[0] = split;
-- 
2.43.0


From 5f5af94096bdfa9f3a134246dd7503ea0001cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 79/85] fix: BuildModularBipartiteNetwork finds the colour of a
 team also for a draw of zero

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 07fe801..e134860 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -239,7 +239,7 @@ BuildModularBipartiteNetwork(int *modSizes,
       dice = gsl_rng_uniform(gen);
       cum = 0.0;
       teamcol = -1;
-      while (cum < dice) {
+      while (cum <= dice) {
 	teamcol++;
 	cum += col_prob[teamcol];
       }
-- 
2.43.0


From 0ae721a0bf25e367e66b9d186263d4957452254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 80/85] fix: readers refuse labels that do not fit in 100 bytes
 (they ran over their buffers); lines are counted whatever their length

---
 src/bipartite.c |  9 +++++++++
 src/graph.c     |  7 +++++++
 src/io.c        |  6 +++++-
 src/tools.c     | 31 +++++++++++++++++++++++++++++--
 src/tools.h     |  1 +
 5 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index e134860..0de11fe 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -72,6 +72,15 @@ FBuildNetworkBipart(FILE *inFile,
 
   
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
+    if (!FieldsFit(line, 2, MAX_LABEL_LENGTH)) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      free(line);
+      FreeLabelDict(dict1);
+      FreeLabelDict(dict2);
+      RemoveGraph(root1);
+      RemoveGraph(root2);
+      return NULL;
+    }
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
       noReadItems = sscanf(line, "%s %s", label1, label2);
diff --git a/src/graph.c b/src/graph.c
index 0a34585..59174ae 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -553,6 +553,13 @@ FBuildNetwork(FILE *inFile,
   
   // Go through the input file
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
+    if (!FieldsFit(line, 2, MAX_LABEL_LENGTH)) {
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      free(line);
+      FreeLabelDict(node_dict);
+      RemoveGraph(root);
+      return NULL;
+    }
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
       noReadItems = sscanf(line, "%s %s", label1, label2);
diff --git a/src/io.c b/src/io.c
index 09066e3..2129633 100644
--- a/src/io.c
+++ b/src/io.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include <gsl/gsl_rng.h>
+#include "tools.h"
 #include "partition.h"
 #include "io.h"
 
@@ -97,7 +98,10 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
 
 
     /* Read the labels (and edge weight, if necessary) */
-    if (weighted == 0) {
+    if (!FieldsFit(line, 2, MAX_LABEL_LENGTH)) {
+      printf ("Failed to read input: label too long.\n");
+      noReadItems = 0;
+    } else if (weighted == 0) {
       noReadItems = sscanf(line, "%s %s", node1->label, node2->label);
       weights[E] = 1;
 	  } else {
diff --git a/src/tools.c b/src/tools.c
index 18e357e..e835940 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -648,14 +648,41 @@ FreeHarmonicList(double *HarmonicList)
 int
 CountLinesInFile(char *inFileName)
 {
-  char line[1000];
+  char *line = NULL;
+  size_t bufsiz = 0;
   int n=0;
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
-  while (fgets(line, 1000, inFile))
+  if (inFile == NULL)
+    return 0;
+  while (getline(&line, &bufsiz, inFile) != -1)
     n++;
+  free(line);
   fclose(inFile);
 
   return n;
 }
+
+/*
+  -----------------------------------------------------------------------------
+  Return 1 if each of the first nfields fields of a line (separated by
+  white space) fits in a string of the given size, and 0 otherwise.
+  -----------------------------------------------------------------------------
+*/
+int
+FieldsFit(const char *line, int nfields, size_t size)
+{
+  const char *space = " \t\n\v\f\r";
+  size_t length;
+
+  while (nfields-- > 0) {
+    line += strspn(line, space);
+    length = strcspn(line, space);
+    if (length >= size)
+      return 0;
+    line += length;
+  }
+
+  return 1;
+}
diff --git a/src/tools.h b/src/tools.h
index 883dc04..0873baf 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -80,5 +80,6 @@ void FreeHarmonicList(double *HarmonicList);
   ---------------------------------------------------------------------
 */
 int CountLinesInFile(char *inFileName);
+int FieldsFit(const char *line, int nfields, size_t size);
 
 #endif /* !RGRAPH_TOOLS_H */
-- 
2.43.0


From f0cbb4461720465b554104de936120f368ffab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 81/85] fix: partition readers refuse too long labels and
 unfinished files (overflow, endless loop)

---
 src/modules.c | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 7a7153c..9cd7f77 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <math.h>
 #include <string.h>
+#include <ctype.h>
 #include <search.h>
 
 #include <gsl/gsl_rng.h>
@@ -124,7 +125,12 @@ FReadPartition(FILE *inF){
 
   while (!feof(inF)){
 	sep[0] = '\0';
-	nfields=fscanf(inF,"%[^\t\n]%1[\t\n]",&label,&sep);
+	nfields=fscanf(inF,"%99[^\t\n]%1[\t\n]",&label,&sep);
+	if (nfields == 1 && !feof(inF)) {  /* no separator after the label */
+	  printf ("Failed to read input: label too long (%s...). \n", label);
+	  RemovePartition(part);
+	  return NULL;
+	}
 	if (nfields > 0)
 	  AddNodeToGroupSoft(g, label);
 	else if (nfields == 0)  /* nothing before the separator */
@@ -137,6 +143,28 @@ FReadPartition(FILE *inF){
   return(part);
 }
 
+/*
+  ---------------------------------------------------------------------
+  Read a label, and the white space after it, from a file. Returns 1,
+  unless there is no label or it is too long.
+  ---------------------------------------------------------------------
+*/
+static int
+FReadLabel(FILE *inF, char *label)
+{
+  int next;
+
+  if (fscanf(inF, "%99s", label) != 1)
+    return 0;
+  next = getc(inF);
+  if (next != EOF && !isspace(next))
+    return 0;
+  while (next != EOF && isspace(next))
+    next = getc(inF);
+  ungetc(next, inF);
+  return 1;
+}
+
 /*
   ---------------------------------------------------------------------
   Build a partition from a file. The file should contain
@@ -159,15 +187,21 @@ FCreatePartition(FILE *inF)
   while (!feof(inF)) {
     g = CreateGroup(part, npart);
     npart++;
-    noReadItems = fscanf(inF, "%s\n", &label[0]);
-	if (noReadItems != 1)
+    noReadItems = FReadLabel(inF, label);
+	if (noReadItems != 1) {
 	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
+	  RemovePartition(part);
+	  return NULL;
+	}
 
     while (strcmp(label, separator) != 0) {
       AddNodeToGroupSoft(g, label);
-      noReadItems = fscanf(inF, "%s\n", &label[0]);
-	  if (noReadItems != 1)
+      noReadItems = FReadLabel(inF, label);
+	  if (noReadItems != 1) {
 		printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
+		RemovePartition(part);
+		return NULL;
+	  }
 
     }
   }
-- 
2.43.0


From 4feb83dc118cdf46a36c4799513dcdf191b96e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 82/85] fix: ReadQueries refuses lines that are no pair of
 labels (it used the previous or no label at all); recommenders stop at
 unreadable files

---
 recommender/main_multi_recommend_2.c       | 12 ++++++++++++
 recommender/main_multi_recommend_k.c       | 12 ++++++++++++
 recommender/main_multi_recommend_k_gibbs.c | 12 ++++++++++++
 src/recommend.c                            | 17 +++++++++++++++--
 4 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index c4e2e81..8fdfdc4 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -44,14 +44,26 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    perror(queFile);
+    return 1;
+  }
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index 16a01e7..601bda1 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -46,14 +46,26 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    perror(queFile);
+    return 1;
+  }
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index aa48c9a..f55c4ec 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -46,14 +46,26 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the number of queries end build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    perror(queFile);
+    return 1;
+  }
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL)
+    return 1;
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/src/recommend.c b/src/recommend.c
index 964e9fa..82a3a17 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -164,7 +164,8 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
   struct query *q=NULL;
   int nq;
   struct node_gra *n1=NULL, *n2=NULL;
-  int dummy;
+  char *line = NULL;
+  size_t bufsiz = 0;
 
   /* Create the search dictionaries */
   dict1 = MakeLabelDict(binet->net1);
@@ -175,7 +176,18 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 
   /* Go through the file and create the queries */
   for (nq=0; nq<nQueries; nq++) {
-    dummy = fscanf(inFile, "%s %s\n", &node1[0], &node2[0]);
+    if (getline(&line, &bufsiz, inFile) == -1 ||
+	!FieldsFit(line, 2, MAX_LABEL_LENGTH) ||
+	sscanf(line, "%s %s", node1, node2) != 2) {
+      printf("Failed to read input: query %d is not a pair of labels. \n", nq + 1);
+      while (nq > 0)
+	FreeQuery(querySet[--nq]);
+      free(querySet);
+      free(line);
+      FreeLabelDict(dict1);
+      FreeLabelDict(dict2);
+      return NULL;
+    }
     n1 = GetNodeDict(node1, dict1);
     /* add to binet if absent */
     if (n1 == NULL) {
@@ -200,6 +212,7 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
   }
 
   /* Free memory */
+  free(line);
   FreeLabelDict(dict1);
   FreeLabelDict(dict2);
 
-- 
2.43.0


From 6d342b734b2c1e7a67d25926147c78d3820bcff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 83/85] fix: netcarto stops when nodes are missing from the
 partition file or the network is empty

---
 netcarto/main_netcarto.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index 49b1f2c..2b21688 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -170,6 +170,10 @@ main(int argc, char **argv)
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
 	if (err) return(1);
+	if (N == 0) {
+		printf("ERROR: The network is empty. \n");
+		return(1);
+	}
 	if (Ngroups==0) Ngroups=N;
 
 	if (!bipartite){
@@ -212,6 +216,7 @@ main(int argc, char **argv)
 	fclose(inF);
 	if (i){
 	  printf ("Error: %d nodes are missing from the partition file.\n",i);
+	  return(1);
 	}
 	printf ("# %d modules read \n",part->M);
   }
-- 
2.43.0


From 1962e6b9564858a4515fdcb05223ceedb4cccdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 84/85] fix: bipartitemodularity, mutualinfo and modularbipart
 check their arguments and files (they crashed)

---
 utils/main_bipartitemodularity.c   | 26 ++++++++++++++++++++++++++
 utils/main_bipartitemodularity_w.c | 26 ++++++++++++++++++++++++++
 utils/main_modularbipart.c         |  5 +++++
 utils/main_mutualinfo.c            | 17 +++++++++++++++++
 4 files changed, 74 insertions(+)

diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 902a04c..2c1e108 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -13,6 +13,13 @@ int main(int argc,char* argv[])
   FILE *inf = NULL;
   struct binet *binet = NULL;
   struct group *part = NULL;
+  struct group *g = NULL;
+  struct node_lis *nod = NULL;
+
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
 
   /*
     ------------------------------------------------------------
@@ -21,13 +28,25 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the network...");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    perror(argv[1]);
+    return 1;
+  }
   binet = FBuildNetworkBipart(inf, 0, 0);
+  if (binet == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    perror(argv[2]);
+    return 1;
+  }
   part = FCreatePartition(inf);
+  if (part == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
@@ -37,6 +56,13 @@ int main(int argc,char* argv[])
   }
   //fprintf(stderr, "done.\n");
 
+  for (g = part->next; g != NULL; g = g->next)
+    for (nod = g->nodeList->next; nod != NULL; nod = nod->next)
+      if (!IsThereNode(nod->nodeLabel, binet->net1)) {
+	printf("ERROR: %s is not a node of the network. \n", nod->nodeLabel);
+	return 1;
+      }
+
   //fprintf(stderr, "Mapping the partition...");
   MapPartToNet(part, binet->net1);
   //fprintf(stderr, "done.\n");
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index c914b31..cfc2d6b 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -13,6 +13,13 @@ int main(int argc,char* argv[])
   FILE *inf = NULL;
   struct binet *binet = NULL;
   struct group *part = NULL;
+  struct group *g = NULL;
+  struct node_lis *nod = NULL;
+
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity_w net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
 
   /*
     ------------------------------------------------------------
@@ -21,13 +28,25 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the network...");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    perror(argv[1]);
+    return 1;
+  }
   binet = FBuildNetworkBipart(inf, 1, 0);
+  if (binet == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    perror(argv[2]);
+    return 1;
+  }
   part = FCreatePartition(inf);
+  if (part == NULL)
+    return 1;
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
@@ -37,6 +56,13 @@ int main(int argc,char* argv[])
   }
   //fprintf(stderr, "done.\n");
 
+  for (g = part->next; g != NULL; g = g->next)
+    for (nod = g->nodeList->next; nod != NULL; nod = nod->next)
+      if (!IsThereNode(nod->nodeLabel, binet->net1)) {
+	printf("ERROR: %s is not a node of the network. \n", nod->nodeLabel);
+	return 1;
+      }
+
   //fprintf(stderr, "Mapping the partition...");
   MapPartToNet(part, binet->net1);
   //fprintf(stderr, "done.\n");
diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index b50a7c0..9278bee 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -22,6 +22,11 @@ main(int argc, char **argv)
   double teamHomog;
 
   /* Command line parameters */
+  if (argc < 7) {
+    printf("\nUse: modularbipart modules module_size teams team_size homogeneity seed\n\n");
+    return -1;
+  }
+
   nMod = atoi(argv[1]);
   modSize = atoi(argv[2]);
   nTeam = atoi(argv[3]);
diff --git a/utils/main_mutualinfo.c b/utils/main_mutualinfo.c
index ed59c9d..db15395 100644
--- a/utils/main_mutualinfo.c
+++ b/utils/main_mutualinfo.c
@@ -13,6 +13,11 @@ int main(int argc,char* argv[])
   struct group *part1 = NULL;
   struct group *part2 = NULL;
 
+  if (argc < 3) {
+    printf("\nUse: mutualinfo partition_file_A partition_file_B\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
@@ -20,12 +25,24 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the partition...\n");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    perror(argv[1]);
+    return 1;
+  }
   part1 = FCreatePartition(inf);
+  if (part1 == NULL)
+    return 1;
   fclose(inf);
 
   //fprintf(stderr, "Creating the partition...\n");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    perror(argv[2]);
+    return 1;
+  }
   part2 = FCreatePartition(inf);
+  if (part2 == NULL)
+    return 1;
   fclose(inf);
 
   /*
-- 
2.43.0


From d674290f99f1477c9ccba3343bf7a53c45b3558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:46 +0000
Subject: [PATCH 85/85] fix: programs stop at files that cannot be read or are
 refused, and take paths of any length (they crashed)

---
 conflict/main_conflict.c                          |  6 ++++++
 multiblock/main_reliability_links_mb.c            |  8 +++++++-
 multiblock/main_reliability_links_mb_OR.c         |  8 +++++++-
 multiblock/main_reliability_links_mb_gibbs.c      |  8 +++++++-
 multiblock/main_reliability_links_mb_gibbs_OR.c   |  8 +++++++-
 netcarto/main_netcarto_legacy.c                   |  6 ++++++
 only_deg/main_only_degeneration_mb.c              |  8 +++++++-
 only_deg/main_only_degeneration_mb_gibbs.c        |  8 +++++++-
 reliability/main_reliability_links.c              |  6 ++++++
 reliability/main_reliability_links_gibbs.c        |  6 ++++++
 reliability/main_reliability_links_gibbs_sparse.c | 10 ++++++++++
 reliability/main_reliability_links_k.c            |  6 ++++++
 reliability/main_reliability_reconstruct.c        |  6 ++++++
 utils/main_countlinks.c                           |  6 ++++++
 utils/main_getgiant.c                             | 10 ++++++++++
 utils/main_lapspec.c                              | 10 ++++++++++
 utils/main_multinetlayout.c                       | 10 ++++++++++
 utils/main_netcompare.c                           | 12 ++++++++++++
 utils/main_netlayout.c                            | 10 ++++++++++
 utils/main_netprop.c                              | 10 ++++++++++
 utils/main_netrandomize.c                         | 10 ++++++++++
 utils/main_nodeprop.c                             |  6 ++++++
 22 files changed, 172 insertions(+), 6 deletions(-)

diff --git a/conflict/main_conflict.c b/conflict/main_conflict.c
index a53100f..d758286 100644
--- a/conflict/main_conflict.c
+++ b/conflict/main_conflict.c
@@ -42,7 +42,13 @@ main(int argc, char **argv)
 
   /* Build the observation network */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    perror(obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL)
+    return 1;
   fclose(infile);
   nquery = CountNodes(ratings->net1) * CountNodes(ratings->net2);
 
diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index d166f06..66bc614 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char outFileNameOR[FILENAME_MAX + 20], outFileNameAND[FILENAME_MAX + 20];
 
   /*
     ---------------------------------------------------------------------------
@@ -45,7 +45,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 864186a..468e639 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char outFileNameOR[FILENAME_MAX + 20];
 
   /*
     ---------------------------------------------------------------------------
@@ -45,7 +45,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index ec6c04d..726c91d 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char outFileNameOR[FILENAME_MAX + 20], outFileNameAND[FILENAME_MAX + 20];
 
   /*
     ---------------------------------------------------------------------------
@@ -45,7 +45,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index b7e0b27..c44a198 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char outFileNameOR[FILENAME_MAX + 20];
 
   /*
     ---------------------------------------------------------------------------
@@ -45,7 +45,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index b87b439..06ff4cd 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -117,6 +117,12 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
     }
   }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
+  if (net->next == NULL) {
+    printf("ERROR: The network is empty. \n");
+    return 1;
+  }
   if (inFile != stdin)
     fclose(inFile);
 
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 3c0d1dd..ec926f6 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char outFileName[FILENAME_MAX + 20];
 
   /*
     ---------------------------------------------------------------------------
@@ -45,7 +45,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 16880d6..7b32fde 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char outFileName[FILENAME_MAX + 20];
 
   /*
     ---------------------------------------------------------------------------
@@ -45,7 +45,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 2924baf..8232ab2 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -46,7 +46,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 9b24aaa..59fbb6f 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -46,7 +46,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index 8475dda..6891240 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -46,7 +46,17 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
+  if (net->next == NULL) {
+    printf("ERROR: The network is empty. \n");
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 79edad3..32de5bd 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -50,7 +50,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 1, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_reconstruct.c b/reliability/main_reliability_reconstruct.c
index b56ddf4..246fa0d 100644
--- a/reliability/main_reliability_reconstruct.c
+++ b/reliability/main_reliability_reconstruct.c
@@ -38,7 +38,13 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /* Reconstruct the network */
diff --git a/utils/main_countlinks.c b/utils/main_countlinks.c
index 40e54ef..b308c25 100644
--- a/utils/main_countlinks.c
+++ b/utils/main_countlinks.c
@@ -35,7 +35,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
diff --git a/utils/main_getgiant.c b/utils/main_getgiant.c
index b454f0a..1f6f0cd 100644
--- a/utils/main_getgiant.c
+++ b/utils/main_getgiant.c
@@ -21,7 +21,17 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
+  if (net->next == NULL) {
+    printf("ERROR: The network is empty. \n");
+    return 1;
+  }
   fclose(infile);
 
   /* Get the giant component and print it */
diff --git a/utils/main_lapspec.c b/utils/main_lapspec.c
index 274be38..b43928d 100644
--- a/utils/main_lapspec.c
+++ b/utils/main_lapspec.c
@@ -26,7 +26,17 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
+  if (net->next == NULL) {
+    printf("ERROR: The network is empty. \n");
+    return 1;
+  }
   fclose(infile);
   nnod = CountNodes(net);
 
diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index f79abf4..712581e 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -43,7 +43,17 @@ main(int argc, char **argv)
   for (i=0; i<nnet; i++) {
     netF = argv[i+1];
     inFile = fopen(netF, "r");
+    if (inFile == NULL) {
+      perror(netF);
+      return 1;
+    }
     net[i] = FBuildNetwork(inFile, 0, 0, 0, 1);
+    if (net[i] == NULL)
+      return 1;
+    if (net[i]->next == NULL) {
+      printf("ERROR: The network is empty. \n");
+      return 1;
+    }
     fclose(inFile);
   }
 
diff --git a/utils/main_netcompare.c b/utils/main_netcompare.c
index 04b9bd0..f013a11 100644
--- a/utils/main_netcompare.c
+++ b/utils/main_netcompare.c
@@ -41,11 +41,23 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   inFile = fopen(netFA, "r");
+  if (inFile == NULL) {
+    perror(netFA);
+    return 1;
+  }
   netA = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (netA == NULL)
+    return 1;
   fclose(inFile);
 
   inFile = fopen(netFB, "r");
+  if (inFile == NULL) {
+    perror(netFB);
+    return 1;
+  }
   netB = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (netB == NULL)
+    return 1;
   fclose(inFile);
 
   /*
diff --git a/utils/main_netlayout.c b/utils/main_netlayout.c
index 175cc1a..751bebd 100644
--- a/utils/main_netlayout.c
+++ b/utils/main_netlayout.c
@@ -55,7 +55,17 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   inFile=fopen(netF, "r");
+  if (inFile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
+  if (net->next == NULL) {
+    printf("ERROR: The network is empty. \n");
+    return 1;
+  }
   fclose(inFile);
   S = CountNodes(net);
   L = TotalNLinks(net, 1);
diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 63683f4..061effe 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -32,7 +32,17 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
+  if (net->next == NULL) {
+    printf("ERROR: The network is empty. \n");
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index eee87b7..33021e4 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -41,7 +41,17 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
+  if (net->next == NULL) {
+    printf("ERROR: The network is empty. \n");
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/utils/main_nodeprop.c b/utils/main_nodeprop.c
index 0c42d9e..78e7cd8 100644
--- a/utils/main_nodeprop.c
+++ b/utils/main_nodeprop.c
@@ -35,7 +35,13 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    perror(netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL)
+    return 1;
   fclose(infile);
 
   /*
-- 
2.43.0

