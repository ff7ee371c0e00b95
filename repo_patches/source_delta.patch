From ae3fdf191110bc4b910688e599f7828edf8ea197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/36] fix: accept only real tours from the nearest neighbour
 heuristic

In a graph that is not complete the greedy visit could use edges that do not
exist (or end in a node with no unvisited neighbour), and its cost was used as
upper bound. The solution is also reset before the feasibility check, so that a
graph with no tour does not report the values of uninitialised memory.
---
 .../main/algorithms/branch_and_bound.c        | 66 +++++++++++++++----
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 16e27ff..10707f4 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -841,6 +841,17 @@ bool time_limit_reached(void) {
 }
 
 
+// true if the Graph has an Edge between the two Nodes
+static bool are_neighbours(const Graph *graph, unsigned short src, unsigned short dest) {
+    for (unsigned short i = 0; i < graph->nodes[src].num_neighbours; i++) {
+        if (graph->nodes[src].neighbours[i] == dest) {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
     nn_subProblem.num_forbidden_edges = 0;
@@ -851,10 +862,15 @@ void nearest_prob_neighbour(unsigned short start_node) {
     unsigned short current_node = start_node;
     bool visited[MAX_VERTEX_NUM] = {false};
     ConstrainedEdge cycleEdge;
+    bool is_tour = true; // in a graph that is not complete, the visit can end in a Node from which it cannot continue
 
-    for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
+    for (unsigned short visited_count = 0; is_tour && visited_count < problem->graph.num_nodes; visited_count++) {
 
         if (visited_count == problem->graph.num_nodes - 1) {
+            if (!are_neighbours(&problem->graph, current_node, start_node)) {
+                is_tour = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
             cycleEdge.src = current_node;
             cycleEdge.dest = start_node;
@@ -872,6 +888,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                     best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                 }
             }
+            if (best_neighbour == current_node) {
+                is_tour = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
             cycleEdge.src = current_node;
             cycleEdge.dest = best_neighbour;
@@ -881,7 +901,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
             current_node = best_neighbour;
         }
     }
-    nn_subProblem.value = nn_subProblem.oneTree.cost;
+    nn_subProblem.value = is_tour ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
@@ -894,10 +914,15 @@ void nearest_prob_neighbour(unsigned short start_node) {
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
+        is_tour = true;
 
-        for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
+        for (unsigned short visited_count = 0; is_tour && visited_count < problem->graph.num_nodes; visited_count++) {
 
             if (visited_count == problem->graph.num_nodes - 1) {
+                if (!are_neighbours(&problem->graph, current_node, start_node)) {
+                    is_tour = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = start_node;
@@ -915,6 +940,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                         best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                     }
                 }
+                if (best_neighbour == current_node) {
+                    is_tour = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = best_neighbour;
@@ -924,7 +953,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
                 current_node = best_neighbour;
             }
         }
-        prob_nn_subProblem.value = prob_nn_subProblem.oneTree.cost;
+        prob_nn_subProblem.value = is_tour ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
@@ -1013,21 +1042,36 @@ void branch_and_bound(Problem *current_problem) {
 
     problem = current_problem;
 
+    problem->start = clock();
+    problem->end = problem->start;
+    problem->candidateNodeId = 0;
+    problem->exploredBBNodes = 0;
+    problem->generatedBBNodes = 0;
+    problem->totTreeLevels = 1;
+    problem->num_fixed_edges = 0;
+    problem->interrupted = false;
+    // until a tour is found, there is no solution
+    problem->bestValue = INFINITE;
+    problem->bestSolution.value = INFINITE;
+    problem->bestSolution.type = CLOSED_UNFEASIBLE;
+    problem->bestSolution.num_edges_in_cycle = 0;
+    problem->bestSolution.num_mandatory_edges = 0;
+    problem->bestSolution.num_forbidden_edges = 0;
+    problem->bestSolution.edge_to_branch = -1;
+    problem->bestSolution.timeToReach = 0;
+    problem->bestSolution.prob = 0;
+    problem->bestSolution.id = 0;
+    problem->bestSolution.treeLevel = 0;
+    problem->bestSolution.fatherId = -1;
+
     if (check_feasibility(&problem->graph)) {
 
-        problem->start = clock();
-        problem->bestValue = INFINITE;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
         problem->bestSolution.fatherId = -1;
-        problem->exploredBBNodes = 0;
-        problem->generatedBBNodes = 0;
-        problem->totTreeLevels = 1;
-        problem->interrupted = false;
         problem->reformulationGraph = problem->graph;
         problem->generatedBBNodes++;
-        problem->num_fixed_edges = 0;
 
         SubProblem subProblem;
         subProblem.treeLevel = 1;
-- 
2.43.0


From 47a70294946294e4beee31736c72a5822b01264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 02/36] fix: infer constraints and fix variables only over the
 nodes of the graph

With fewer nodes than MAX_VERTEX_NUM the loops read the uninitialised rest of
the constraint matrix: crashes and wrong optima.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 10707f4..2358ca1 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -185,15 +185,16 @@ void initialize_matrix(SubProblem *subProblem) {
 bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
+    const short num_nodes = (short) problem->graph.num_nodes;
 
-    for (short i = 0; i < MAX_VERTEX_NUM && valid; i++) {
+    for (short i = 0; i < num_nodes && valid; i++) {
 
         short num_nothing_node = 0;
         short num_mandatory_node = 0;
         short num_forbidden_node = 0;
         short nothing_nodes[MAX_VERTEX_NUM];
 
-        for (short j = 0; j < MAX_VERTEX_NUM; j++) {
+        for (short j = 0; j < num_nodes; j++) {
             if (subProblem->constraints[i][j] == NOTHING) {
                 nothing_nodes[num_nothing_node] = j;
                 num_nothing_node++;
@@ -211,9 +212,9 @@ bool infer_constraints(SubProblem * subProblem){
                 subProblem->num_forbidden_edges++;
                 problem->num_fixed_edges++;
             }
-        } else if (num_mandatory_node > 2 || (MAX_VERTEX_NUM - num_forbidden_node < 2)) {
+        } else if (num_mandatory_node > 2 || (num_nodes - num_forbidden_node < 2)) {
             valid = false;
-        } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
+        } else if (num_nodes - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
                 for (short j = 0; j < num_nothing_node; j++) {
@@ -469,7 +470,7 @@ int variable_fixing(SubProblem *currentSubProb){
     }
 
 
-    for (int i = 0; i < MAX_VERTEX_NUM; i++){
+    for (int i = 0; i < currentSubProb->oneTree.num_edges; i++){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-- 
2.43.0


From 7c2404b04731f3522d05ed38c81d78e793709a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 03/36] fix: mandatory edges come first in the constrained Prim
 whatever their weight

-num_nodes is added to the weights of the path, so that with large weights a
mandatory edge could be left out of the tree.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 2358ca1..b02471b 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -591,9 +591,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges_matrix[dest][src].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -((double) problem->graph.num_nodes);
+            graph_copy.edges_matrix[src][dest].weight = -FLT_MAX;
+            graph_copy.edges_matrix[dest][src].weight = -FLT_MAX;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -FLT_MAX;
         }
     }
 
-- 
2.43.0


From 912a2979f502172f0f69cf1301ff94a718d424ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 04/36] fix: never impose more mandatory edges than a tour can
 have

---
 .../main/algorithms/branch_and_bound.c        | 69 +++++++++----------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index b02471b..e95c106 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -88,8 +88,8 @@ bool check_hamiltonian(SubProblem *subProblem) {
 BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
 
     Node candidate = graph->nodes[problem->candidateNodeId];
-    int bestEdgesPos[2];
-    double bestEdgesWeight[2];
+    int bestEdgesPos[3]; // the third is only to notice that there are too many mandatory edges
+    double bestEdgesWeight[3];
     unsigned short src = candidate.positionInGraph;
     unsigned short others [candidate.num_neighbours];
     unsigned short num_others = 0;
@@ -182,6 +182,20 @@ void initialize_matrix(SubProblem *subProblem) {
 }
 
 
+// impose an Edge to a SubProblem: false if there are already as many mandatory edges as a tour can have
+static bool add_mandatory_edge(SubProblem *subProblem, unsigned short src, unsigned short dest) {
+    if (subProblem->num_mandatory_edges >= problem->graph.num_nodes) {
+        return false;
+    }
+    subProblem->constraints[src][dest] = MANDATORY;
+    subProblem->constraints[dest][src] = MANDATORY;
+    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].src = src;
+    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].dest = dest;
+    subProblem->num_mandatory_edges++;
+    return true;
+}
+
+
 bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
@@ -217,13 +231,11 @@ bool infer_constraints(SubProblem * subProblem){
         } else if (num_nodes - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
-                for (short j = 0; j < num_nothing_node; j++) {
-                    subProblem->constraints[i][nothing_nodes[j]] = MANDATORY;
-                    subProblem->constraints[nothing_nodes[j]][i] = MANDATORY;
-                    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].src = i;
-                    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].dest = nothing_nodes[j];
-                    subProblem->num_mandatory_edges++;
-                    problem->num_fixed_edges++;
+                for (short j = 0; valid && j < num_nothing_node; j++) {
+                    valid = add_mandatory_edge(subProblem, i, nothing_nodes[j]);
+                    if (valid) {
+                        problem->num_fixed_edges++;
+                    }
                 }
             }
         }
@@ -275,16 +287,13 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
         child.treeLevel = currentSubProblem->treeLevel + 1;
         child.edge_to_branch = -1;
         copy_constraints(&child, currentSubProblem);
+        bool feasible = true;
 
         if(HYBRID) {
 
             if (prob_edge >= PROB_BRANCH) {
                 if (i == 0) {
-                    child.constraints[to_branch.src][to_branch.dest] = MANDATORY;
-                    child.constraints[to_branch.dest][to_branch.src] = MANDATORY;
-                    child.mandatoryEdges[child.num_mandatory_edges].src = to_branch.src;
-                    child.mandatoryEdges[child.num_mandatory_edges].dest = to_branch.dest;
-                    child.num_mandatory_edges++;
+                    feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
                 } else {
                     child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                     child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
@@ -296,21 +305,13 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
                     child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
                     child.num_forbidden_edges++;
                 } else {
-                    child.constraints[to_branch.src][to_branch.dest] = MANDATORY;
-                    child.constraints[to_branch.dest][to_branch.src] = MANDATORY;
-                    child.mandatoryEdges[child.num_mandatory_edges].src = to_branch.src;
-                    child.mandatoryEdges[child.num_mandatory_edges].dest = to_branch.dest;
-                    child.num_mandatory_edges++;
+                    feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
                 }
             }
         }
         else{
             if (i == 0) {
-                child.constraints[to_branch.src][to_branch.dest] = MANDATORY;
-                child.constraints[to_branch.dest][to_branch.src] = MANDATORY;
-                child.mandatoryEdges[child.num_mandatory_edges].src = to_branch.src;
-                child.mandatoryEdges[child.num_mandatory_edges].dest = to_branch.dest;
-                child.num_mandatory_edges++;
+                feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
             } else {
                 child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                 child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
@@ -318,7 +319,7 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
             }
         }
 
-        if(infer_constraints(&child)){
+        if(feasible && infer_constraints(&child)){
             long position = -1;
 
             SubProblemsListIterator *subProblem_iterators = create_SubProblemList_iterator(
@@ -477,21 +478,15 @@ int variable_fixing(SubProblem *currentSubProb){
         if(currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] == NOTHING) {
             if (edge_1tree.src != problem->candidateNodeId && edge_1tree.dest != problem->candidateNodeId) {
                 if (currentSubProb->oneTree.cost + replacement_costs[i] - edge_1tree_weight >= problem->bestValue) {
-                    currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] = MANDATORY;
-                    currentSubProb->constraints[edge_1tree.dest][edge_1tree.src] = MANDATORY;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].src = edge_1tree.src;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].dest = edge_1tree.dest;
-                    currentSubProb->num_mandatory_edges++;
-                    num_fixed++;
+                    if (add_mandatory_edge(currentSubProb, edge_1tree.src, edge_1tree.dest)) {
+                        num_fixed++;
+                    }
                 }
             } else {
                 if(currentSubProb->oneTree.cost + best_candidate_replacement - edge_1tree_weight >= problem->bestValue){
-                    currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] = MANDATORY;
-                    currentSubProb->constraints[edge_1tree.dest][edge_1tree.src] = MANDATORY;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].src = edge_1tree.src;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].dest = edge_1tree.dest;
-                    currentSubProb->num_mandatory_edges++;
-                    num_fixed++;
+                    if (add_mandatory_edge(currentSubProb, edge_1tree.src, edge_1tree.dest)) {
+                        num_fixed++;
+                    }
                 }
             }
         }
-- 
2.43.0


From 6d7937f298c18cb5163f8a1040f7d0b519e59aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 05/36] fix: free the list of generated subproblems on every
 return of bound

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index e95c106..7f62b7e 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -732,6 +732,7 @@ void bound(SubProblem *currentSubProb) {
                     if(analyzedSubProblem.type != OPEN){
                         if(iter == 1 || (analyzedSubProblem.type == CLOSED_SUBGRADIENT)) {
                             currentSubProb->type = analyzedSubProblem.type;
+                            delete_SubProblemList(&generatedSubProblems);
                             return;
                         }
                     }
@@ -775,10 +776,12 @@ void bound(SubProblem *currentSubProb) {
 
                 else{
                     currentSubProb->type = CLOSED_UNFEASIBLE;
+                    delete_SubProblemList(&generatedSubProblems);
                     return;
                 }
             } else {
                 currentSubProb->type = CLOSED_UNFEASIBLE;
+                delete_SubProblemList(&generatedSubProblems);
                 return;
             }
 
-- 
2.43.0


From 20a525273dc3197f4ab44864ae91843efc063a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 06/36] fix: print the type of the 1-trees closed as such

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 7f62b7e..eef4767 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1126,6 +1126,8 @@ void print_subProblem(const SubProblem *subProblem) {
         type = "CLOSED_NEAREST_NEIGHBOR";
     } else if (subProblem->type == CLOSED_NN_HYBRID) {
         type = "CLOSED_NEAREST_NEIGHBOR_HYBRID";
+    } else if (subProblem->type == CLOSED_1TREE) {
+        type = "CLOSED_1TREE";
     } else {
         type = "CLOSED_SUBGRADIENT";
     }
-- 
2.43.0


From 469e65917bb5411283038aad47476cf0fef18917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 07/36] fix: initialise branching edge and time of the nearest
 neighbour solutions

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index eef4767..ad00ad6 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -856,6 +856,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
     nn_subProblem.num_forbidden_edges = 0;
     nn_subProblem.num_mandatory_edges = 0;
     nn_subProblem.num_edges_in_cycle = 0;
+    nn_subProblem.edge_to_branch = -1;
     nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
@@ -910,6 +911,8 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_forbidden_edges = 0;
         prob_nn_subProblem.num_mandatory_edges = 0;
         prob_nn_subProblem.num_edges_in_cycle = 0;
+        prob_nn_subProblem.edge_to_branch = -1;
+        prob_nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
-- 
2.43.0


From 58605b65ba62b9b2017439cff474b51f6a7e860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 08/36] fix: do not report an optimal tour when none was found

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index ad00ad6..fdd78e5 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1184,7 +1184,8 @@ void print_subProblem(const SubProblem *subProblem) {
 }
 
 void print_problem(void) {
-    printf("Optimal tour found with candidate node = %i, elapsed time = %lfs and interrupted = %s\n",
+    printf("%s with candidate node = %i, elapsed time = %lfs and interrupted = %s\n",
+           problem->bestSolution.num_edges_in_cycle > 0 ? "Optimal tour found" : "No tour found",
            problem->candidateNodeId,  ((double) (problem->end - problem->start)) / CLOCKS_PER_SEC,
            problem->interrupted ? "TRUE" : "FALSE");
 
-- 
2.43.0


From a382494014807654e1ae1037a046ad030077aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 09/36] fix: forbid the edges that the graph does not have

An edge missing from the graph could be forced as mandatory, and its
uninitialised position was then used as an index.
---
 .../main/algorithms/branch_and_bound.c            | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index fdd78e5..91ac14d 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -851,6 +851,20 @@ static bool are_neighbours(const Graph *graph, unsigned short src, unsigned shor
 }
 
 
+// the edges that the Graph does not have cannot be in any tour
+static void forbid_missing_edges(SubProblem *subProblem) {
+    for (unsigned short i = 0; i < problem->graph.num_nodes; i++) {
+        for (unsigned short j = i + 1; j < problem->graph.num_nodes; j++) {
+            if (!are_neighbours(&problem->graph, i, j)) {
+                subProblem->constraints[i][j] = FORBIDDEN;
+                subProblem->constraints[j][i] = FORBIDDEN;
+                subProblem->num_forbidden_edges++;
+            }
+        }
+    }
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
     nn_subProblem.num_forbidden_edges = 0;
@@ -1085,6 +1099,7 @@ void branch_and_bound(Problem *current_problem) {
         subProblem.num_edges_in_cycle = 0;
         subProblem.edge_to_branch = -1;
         initialize_matrix(&subProblem);
+        forbid_missing_edges(&subProblem);
 
 
         SubProblemsList subProblems;
-- 
2.43.0


From 3435dd0a7a5853d2269ed54fe639a86e5b7493ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 10/36] fix: size the degree list of the Fibonacci heap with
 the golden ratio

The base 2 logarithm only bounds the degree of binomial trees: after cuts a root
of degree 8 can have just 55 nodes, and the list was accessed out of bounds.
---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 49a9a9b..5674387 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -113,7 +113,8 @@ void swap_roots(FibonacciHeap * heap, OrdTreeNode * node1, OrdTreeNode * node2){
 
 void consolidate(FibonacciHeap * heap){
 
-    int dimension = ((int) ceil(log(heap->num_nodes) / log(2))) + 2;
+    // the number of children of a Node is at most logarithmic, in base the golden ratio, in the number of nodes
+    int dimension = ((int) ceil(log(heap->num_nodes) / log((1 + sqrt(5)) / 2))) + 2;
     OrdTreeNode * degree_list [dimension] ;
 
     for (int i = 0; i < dimension; i++) {
-- 
2.43.0


From ea9c959aa832afedc947bf1f89850c3e7f717489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 11/36] fix: update the tail when a list is extended by
 inserting at its end

---
 src/HybridSolver/main/data_structures/b_and_b_data.c             | 1 +
 .../main/data_structures/doubly_linked_list/list_functions.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index e9cf1dc..f120683 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -99,6 +99,7 @@ void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, s
         if (supp == NULL) {
             e = build_list_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_list_elem(element, supp, supp->prev);
             e->next->prev = e;
diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 9f2be7e..f068d1f 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -110,6 +110,7 @@ void add_elem_list_index(List *list, void *element, size_t index) {
         if (supp == NULL) {
             e = build_dll_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_dll_elem(element, supp, supp->prev);
             e->next->prev = e;
-- 
2.43.0


From 6d1d89dabb3db75390595173dc8a13018041f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 12/36] fix: delete the last element of a list

---
 .../data_structures/doubly_linked_list/list_functions.c     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index f068d1f..0a224f2 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -134,7 +134,11 @@ void delete_list_elem_bottom(List *list) {
     DllElem *oldTail = list->tail;
 
     list->tail = oldTail->prev;
-    list->tail->next = NULL;
+    if (list->tail != NULL) {
+        list->tail->next = NULL;
+    } else {
+        list->head = NULL;
+    }
 
     free(oldTail);
     list->size--;
-- 
2.43.0


From 8a7764b00ee744a735c9d95c243e5c5ddb5270cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 13/36] fix: do not sort the edges of a graph without edges

---
 src/HybridSolver/main/algorithms/kruskal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 69aa710..5c66525 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -123,7 +123,9 @@ static void quick_sort(Graph * graph, unsigned short first, unsigned short last)
 void wrap_quick_sort(Graph * graph) {
     if (!graph->orderedEdges) {
         graph->orderedEdges = true;
-        quick_sort(graph, 0, graph->num_edges - 1);
+        if (graph->num_edges > 1) {
+            quick_sort(graph, 0, graph->num_edges - 1);
+        }
     }
 }
 
-- 
2.43.0


From 16a69c829f66fe781ad65cec10343d8e7d9eb35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 14/36] fix: print edges without buffers that are too small for
 them

---
 src/HybridSolver/main/data_structures/graph.c | 13 +++-------
 src/HybridSolver/main/data_structures/mst.c   | 24 +++++--------------
 2 files changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index 26da3df..d0932fe 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -113,19 +113,12 @@ void print_graph(const Graph *G) {
     printf("\nCost: %lf\n", G->cost);
     printf("\nEdges: %i\n", G->num_edges);
 
-    double dim = (log(G->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short j = 0; j < G->num_edges; j++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         Edge curr = G->edges[j];
-        sprintf(edge_print, "%i", curr.src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr.dest);
-        strcat(edge_print, edge_print_dest);
-
-        printf("Edge%i:\t%s\tweight = %.*f\tprob = %.*f\n",
+        printf("Edge%i:\t%i <--> %i\tweight = %.*f\tprob = %.*f\n",
                curr.symbol,
-               edge_print,
+               curr.src,
+               curr.dest,
                DBL_DIG-1,
                curr.weight,
                DBL_DIG-1,
diff --git a/src/HybridSolver/main/data_structures/mst.c b/src/HybridSolver/main/data_structures/mst.c
index 3e71278..c07bac7 100644
--- a/src/HybridSolver/main/data_structures/mst.c
+++ b/src/HybridSolver/main/data_structures/mst.c
@@ -70,18 +70,12 @@ void add_edge(MST * tree, const Edge * edge){
 void print_mst(const MST * tree){
     printf("\nMST or 1-Tree with cost: %lf and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
-        printf("Edge%i:\t%s\tweight = %lf\tprob = %lf\n",
+        printf("Edge%i:\t%i <--> %i\tweight = %lf\tprob = %lf\n",
                curr->symbol,
-               edge_print,
+               curr->src,
+               curr->dest,
                curr->weight,
                curr->prob);
     }
@@ -92,18 +86,12 @@ void print_mst(const MST * tree){
 void print_mst_original_weight(const MST * tree, const Graph * graph){
     printf("\nMST or 1-Tree with cost: %f and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
-        printf("Edge%i: %s weight = %f prob = %f\n",
+        printf("Edge%i: %i <--> %i weight = %f prob = %f\n",
                curr->symbol,
-               edge_print,
+               curr->src,
+               curr->dest,
                graph->edges_matrix[curr->src][curr->dest].weight,
                curr->prob);
     }
-- 
2.43.0


From 6b78e78cd4b26b51fd03e811fc415129ee61c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 15/36] fix: accept the euclidean TSPLIB files, and only them

The check was inverted, so that any header line other than the expected one
made the file euclidean; the colon may come with or without a space before it.
---
 src/HybridSolver/main/tsp_instance_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 99c940b..96d8aab 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -28,7 +28,7 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     bool check_euc_2d = false;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
-        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") == NULL) {
+        if (strncmp(line, "EDGE_WEIGHT_TYPE", strlen("EDGE_WEIGHT_TYPE")) == 0 && strstr(line, "EUC_2D") != NULL) {
             check_euc_2d = true;
         }
     }
-- 
2.43.0


From ec76dbccdfca8a6f91f0dda2272321ff99a276b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 16/36] fix: reject the instances that are larger than the
 arrays of the graph

---
 src/HybridSolver/main/tsp_instance_reader.c | 25 ++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 96d8aab..7c7af8a 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -56,6 +56,11 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
                 printf("\nFile: %s\n", filename);
                 exit(1);
             }
+            if (i >= MAX_VERTEX_NUM) {
+                perror("The current TSP file has too many nodes.\n");
+                printf("\nFile: %s\n", filename);
+                exit(1);
+            }
             nodes[i].positionInGraph = i;
             nodes[i].x = x;
             nodes[i].y = y;
@@ -93,12 +98,12 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
     char *line = NULL;
     size_t len = 0;
     bool first = true;
+    unsigned short node_num = 0;
     while (getline(&line, &len, fp) != -1) {
         if (first) {
             first = false;
 
             char *token = strtok(line, ";");
-            unsigned short node_num = 0;
             while (token != NULL && strcmp(token, "\n") != 0) {
                 double x = 0, y = 0;
                 int result = sscanf(token, "(%lf, %lf)", &x, &y);
@@ -107,6 +112,11 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                     printf("\nFile: %s\n", filename);
                     exit(1);
                 }
+                if (node_num >= MAX_VERTEX_NUM) {
+                    perror("The current file has too many nodes.\n");
+                    printf("\nFile: %s\n", filename);
+                    exit(1);
+                }
                 graph->nodes[node_num].positionInGraph = node_num;
                 graph->nodes[node_num].x = x;
                 graph->nodes[node_num].y = y;
@@ -117,9 +127,22 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
 
             continue;
         }
+        if (strcmp(line, "\n") == 0) {
+            continue;
+        }
+        if (i >= node_num) {
+            perror("The current file has more rows than nodes.\n");
+            printf("\nFile: %s\n", filename);
+            exit(1);
+        }
         char *token = strtok(line, ";");
         unsigned short j = 0;
         while (token != NULL && strcmp(token, "\n") != 0) {
+            if (j >= node_num) {
+                perror("The current file has a row with more columns than nodes.\n");
+                printf("\nFile: %s\n", filename);
+                exit(1);
+            }
             if (j != i) {
                 double weight = 0, prob = 0;
 
-- 
2.43.0


From bb6210f6ec3d7fdb9222f237560bdb0290c6668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 17/36] fix: reject the csv instances with an incomplete row or
 without nodes

The missing part of a row silently became missing edges.
---
 src/HybridSolver/main/tsp_instance_reader.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 7c7af8a..50d1028 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -178,10 +178,20 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
             token = strtok(NULL, ";");
             j++;
         }
+        if (j < node_num) {
+            perror("The current file has a row with less columns than nodes.\n");
+            printf("\nFile: %s\n", filename);
+            exit(1);
+        }
         graph->num_nodes++;
         i++;
     }
     free(line);
+    if (node_num == 0) {
+        perror("The current file has no nodes.\n");
+        printf("\nFile: %s\n", filename);
+        exit(1);
+    }
     if (fclose(fp) == EOF) {
         perror("Error while closing the file.\n");
         printf("\nFile: %s\n", filename);
-- 
2.43.0


From 6912df5d6e855e91424a2e1d873c8e914591e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 18/36] fix: report that the result could not be written

The exit status was 0 even if the output file was missing or truncated.
---
 src/HybridSolver/main/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/main.c b/src/HybridSolver/main/main.c
index 21076fa..6a79aaf 100644
--- a/src/HybridSolver/main/main.c
+++ b/src/HybridSolver/main/main.c
@@ -37,7 +37,10 @@ int main(int argc, char *argv[]) {
     //printf("\nReading from file '%s'\n", input_file);
     //printf("\nWriting to file '%s'\n", output_file);
 
-    freopen(output_file, "w+", stdout);
+    if (freopen(output_file, "w+", stdout) == NULL) {
+        perror("Error while opening the output file");
+        exit(1);
+    }
 
     //run_all_tests();
 
@@ -52,7 +55,11 @@ int main(int argc, char *argv[]) {
 
     print_problem();
 
-    fclose(stdout);
+    bool write_error = ferror(stdout);
+    if (fclose(stdout) == EOF || write_error) {
+        perror("Error while writing the output file");
+        exit(1);
+    }
 
     return 0;
 }
-- 
2.43.0


From fbe1f3fc9d5f93093a5f77c8cd0136192bd50988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 19/36] fix: compare the probabilities of the dummy cities as
 numbers

As strings, 9.9e-05 is greater than 0.5.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 89da50f..199b39d 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -149,7 +149,7 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
 
             for j in range(num_nodes, model_size):
                 if i != j-num_nodes:
-                    if arr_combined[i * model_size + j][1] > final_arr[i * num_nodes + j - num_nodes][1]:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + j - num_nodes][1]):
                         final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
-- 
2.43.0


From 49e6f5e9c64519bf18afe6363d877792cc9c5955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 20/36] fix: write the matrix of the instances smaller than
 half of the model

The column of a dummy city beyond the first round was out of the row.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 199b39d..4fe9ed5 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -148,9 +148,10 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
                 final_arr.append(arr_combined[i * model_size + j])
 
             for j in range(num_nodes, model_size):
-                if i != j-num_nodes:
-                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + j - num_nodes][1]):
-                        final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
+                # the dummy cities are copies of the cities taken in turn, maybe more than once
+                if i != j % num_nodes:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + j % num_nodes][1]):
+                        final_arr[i * num_nodes + j % num_nodes][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
 
-- 
2.43.0


From 45c0bd01dbd117215bc8d4b05e04cb4028512698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 21/36] fix: import errno, used when the directories cannot be
 created

---
 src/HybridSolver/main/HybridSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 8351373..e2ce231 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -14,6 +14,7 @@
 import subprocess
 import argparse
 import pprint as pp
+import errno
 import os
 import time
 import numpy as np
-- 
2.43.0


From 4f6a87a2a027a7ba94f191753efb19ac97acb4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 22/36] fix: do not list twice an edge that was already
 mandatory when branching on it

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 91ac14d..6e7a7e4 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -184,6 +184,9 @@ void initialize_matrix(SubProblem *subProblem) {
 
 // impose an Edge to a SubProblem: false if there are already as many mandatory edges as a tour can have
 static bool add_mandatory_edge(SubProblem *subProblem, unsigned short src, unsigned short dest) {
+    if (subProblem->constraints[src][dest] == MANDATORY) {
+        return true;
+    }
     if (subProblem->num_mandatory_edges >= problem->graph.num_nodes) {
         return false;
     }
-- 
2.43.0


From 68facde077c90a8f53d2dbfda3b9afbffe995082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 23/36] fix: do not divide by zero in the analysis when no run
 of a folder was completed

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index ddccab2..c887b06 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -255,10 +255,11 @@ def read_values(path):
             partial_solutions[inst_id] = (current_resolved, solutions)
 
     all_stats["resolved"] = str(round((resolved / (resolved + len(not_resolved_list)))* 100, 2)) + "%"
-    all_stats["num_closed_nn"] = str(round((num_closed_nn / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / resolved) * 100, 2)) + "%"
+    num_resolved = max(resolved, 1)  # all the percentages are 0% if no instance has been resolved
+    all_stats["num_closed_nn"] = str(round((num_closed_nn / num_resolved) * 100, 2)) + "%"
+    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / num_resolved) * 100, 2)) + "%"
+    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / num_resolved) * 100, 2)) + "%"
+    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / num_resolved) * 100, 2)) + "%"
 
     all_stats["total_time"] = dict(sorted(total_time.items()))
     all_stats["time_bb"] = dict(sorted(time_bb.items()))
-- 
2.43.0


From a669685b529f8a54538628e55b43aed87dcbbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 24/36] fix: do not count for the classic mode the instances
 for which neither mode has a tour yet

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index c887b06..622c93f 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -61,7 +61,8 @@ def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
         two_count = 0
         for key in sol_one.keys():
             # if the two solutions are contained in the ub range, we consider them equal
-            if not abs(sol_one[key] - sol_two[key]) < ub:
+            # (as when neither of them has a solution yet)
+            if sol_one[key] != sol_two[key] and not abs(sol_one[key] - sol_two[key]) < ub:
                 if sol_one[key] < sol_two[key]:
                     one_count += 1
                 else:
-- 
2.43.0


From ee9b239048b124aeb8a078589258f1e54ac276e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 25/36] fix: write the bold cells of the classic mode with a
 backslash, not with a tab

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 622c93f..0b83db2 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -405,7 +405,7 @@ def modify_string(old_tab, line, name, j):
         if p_val < 0.05:
             old_tab = old_tab.replace(name + "_" + str(j),  "\\underline{\\textbf{" + str(cla_m) + "}}")
         else:
-            old_tab = old_tab.replace(name + "_" + str(j),  "\textbf{" + str(cla_m) + "}")
+            old_tab = old_tab.replace(name + "_" + str(j),  "\\textbf{" + str(cla_m) + "}")
 
         old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\stdf{" + str(hyb_std) + "}")
         old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))
-- 
2.43.0


From 00c457b211fa1a3726c9da28323f2a3e0e6d34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 26/36] fix: read the whole tour of the lines that do not end
 with a space

---
 .../main/graph-convnet-tsp/utils/google_tsp_reader.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py b/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
index bf2343f..731dc03 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
@@ -53,7 +53,7 @@ class GoogleTSPReader(object):
         batch_tour_len = []
 
         for line_num, line in enumerate(lines):
-            line = line.split(" ")  # Split into list
+            line = line.split()  # Split into list
             
             # Compute signal on nodes
             nodes = np.ones(self.num_nodes)  # All 1s for TSP...
@@ -80,7 +80,7 @@ class GoogleTSPReader(object):
             
             # Convert tour nodes to required format
             # Don't add final connection for tour/cycle
-            tour_nodes = [int(node) - 1 for node in line[line.index('output') + 1:-1]][:-1]
+            tour_nodes = [int(node) - 1 for node in line[line.index('output') + 1:-1]]
             
             # Compute node and edge representation of tour + tour_len
             tour_len = 0
-- 
2.43.0


From 3888877092b3581f03f643571b0283aa2fe0fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 27/36] fix: keep the order of the cities of the instances
 larger than the model

---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 4fe9ed5..6936d3b 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -177,6 +177,11 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
 
             j += 1
 
+        # the cities seen by the network come first up to here: back to the order of the instance
+        order = [nodes_coord.index(node) for node in graph]
+        arr_combined = [[arr_combined[i][j] for j in order] for i in order]
+        nodes_coord = graph
+
         arr_combined = np.array(arr_combined).flatten().tolist()
         arr_combined = [[arr_combined[i], arr_combined[i + 1]] for i in range(0, len(arr_combined), 2)]
         nodes_coord = np.array(nodes_coord).flatten().tolist()
-- 
2.43.0


From dce64c20c14cd611d9205bae47a95cf6208743bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 28/36] fix: on equal lower bounds the hybrid mode prefers the
 higher probability

Subproblems and candidate start vertices with exactly the same lower bound
were never compared by probability, against what README.md and
problem_settings.h describe.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 6e7a7e4..f774c8b 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -646,7 +646,7 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 bool compare_subproblems(const SubProblem *a, const SubProblem *b) {
     if (HYBRID) {
         return (b->value - a->value) > EPSILON ||
-                ( (b->value > a->value) && (a->prob - b->prob) >= BETTER_PROB);
+                ( (b->value >= a->value) && (a->prob - b->prob) >= BETTER_PROB);
     } else {
         return (b->value - a->value) > EPSILON;
     }
@@ -999,7 +999,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
 bool compare_candidate_node(SubProblem * a, SubProblem * b){
     if (HYBRID) {
         return (a->value - b->value) > EPSILON ||
-            ((a->value > b->value) && (a->prob - b->prob) >= BETTER_PROB);
+            ((a->value >= b->value) && (a->prob - b->prob) >= BETTER_PROB);
     } else {
         return (a->value - b->value) >= EPSILON;
     }
-- 
2.43.0


From 549313261d2ab1d18915c8204f6a95855c2d6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 29/36] fix: cluster the instances larger than the model down
 to the size of that model

The size passed to main() was ignored and 100 used instead, so that only the
largest model could be used on instances larger than it.
---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 6936d3b..7b86277 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -365,7 +365,7 @@ def main(filepath, num_nodes, model_size):
         add_dummy_cities(num_nodes, model_size)
     elif num_nodes > model_size:
         graph = get_instance(num_nodes)
-        kmedoids_labels = fix_instance_size(graph, num_nodes)
+        kmedoids_labels = fix_instance_size(graph, num_nodes, model_size)
 
     config_path = "./logs/tsp" + str(model_size) + "/config.json"
     config = get_config(config_path)
-- 
2.43.0


From 033b56e1f704df79c88a2f237dd834229a637cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 30/36] fix: constrained_prim uses the range of double for its
 infinite weights

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index f774c8b..1114554 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -578,7 +578,7 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
     for (unsigned short i = 0; i < graph->num_nodes; i++){
         in_heap[i] = false;
         fathers[i] = -1;
-        values[i] = start ? FLT_MAX/2 : FLT_MAX;
+        values[i] = start ? DBL_MAX/2 : DBL_MAX;
         start = false;
     }
 
@@ -589,9 +589,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -FLT_MAX;
-            graph_copy.edges_matrix[dest][src].weight = -FLT_MAX;
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -FLT_MAX;
+            graph_copy.edges_matrix[src][dest].weight = -DBL_MAX;
+            graph_copy.edges_matrix[dest][src].weight = -DBL_MAX;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -DBL_MAX;
         }
     }
 
-- 
2.43.0


From 459f5b57a46a5a69c3c84dc910c71cbac6bda7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 31/36] fix: delete_node reaches nodes with values below the
 range of float

---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 5674387..cbe4c22 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -311,6 +311,6 @@ void decrease_value(FibonacciHeap * heap, OrdTreeNode * node, double new_value){
 }
 
 void delete_node(FibonacciHeap * heap, OrdTreeNode * node){
-    decrease_value(heap, node, -FLT_MAX);
+    decrease_value(heap, node, -DBL_MAX);
     extract_min(heap);
 }
-- 
2.43.0


From ff754ec15251561726cbeb473656c9c70ecfd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 32/36] fix: get_max_k looks at all the batches of the dataset

---
 src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py b/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
index 552daa3..2806086 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
@@ -101,8 +101,7 @@ def get_max_k(dataset, max_iter=1000):
     and take the max of all ks.
     """ 
     ks = []
-    for _ in range(max_iter):
-        batch = next(iter(dataset))
+    for _, batch in zip(range(max_iter), dataset):
         for idx in range(batch.edges.shape[0]):
             for row in range(dataset.num_nodes):
                 # Compute indices of current node's neighbors in the TSP solution
-- 
2.43.0


From 0211111c3254248cbaee848a4d7f37bfc45d10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 33/36] fix: padding ends for coordinates that absorb the
 offset of the copies

---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 7b86277..ea0c0e6 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -233,8 +233,9 @@ def add_dummy_cities(num_nodes, model_size):
         while not find:
             values = np.random.randint(1, 9, 2)
             signs = np.random.choice([-1, 1], 2)
-            x = graph[rr_index][0] + signs[0] * values[0] * 0.000000000000001
-            y = graph[rr_index][1] + signs[1] * values[1] * 0.000000000000001
+            # beyond the unit square the offset grows with the coordinate, which would absorb it otherwise
+            x = graph[rr_index][0] + signs[0] * values[0] * 0.000000000000001 * max(1.0, abs(graph[rr_index][0]))
+            y = graph[rr_index][1] + signs[1] * values[1] * 0.000000000000001 * max(1.0, abs(graph[rr_index][1]))
             if [x, y] not in graph:
                 find = True
 
-- 
2.43.0


From aa53ed9dbac8bad9fa5b8e227f4ef762668c4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 34/36] fix: a report of an earlier run does not pass for the
 one of a solver that failed

---
 src/HybridSolver/main/HybridSolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index e2ce231..fa7c57c 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -230,6 +230,9 @@ def hybrid_solver(num_instances, num_nodes, hyb_mode, gen_matrix):
             except OSError as exc:  # Guard against race condition
                 if exc.errno != errno.EEXIST:
                     raise
+        # A report left by an earlier run must not pass for the one of this instance if the solver fails.
+        if os.path.exists(absolute_output_path):
+            os.remove(absolute_output_path)
         cmd = [build_directory + "/BranchAndBound1Tree", absolute_input_path, absolute_output_path]
         result = subprocess.run(cmd)
         if result.returncode == 0:
-- 
2.43.0


From 5df51f74995c509cf2c27b43df075dcd43fc45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:31 +0000
Subject: [PATCH 35/36] fix: the copy of the graph that the 1-trees are built
 on is not on the stack, which it exceeds beyond 330 nodes

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 1114554..a7677c1 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -563,7 +563,8 @@ void constrained_kruskal(Graph * graph, SubProblem * subProblem, unsigned short
 
 void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short candidateId) {
 
-    Graph graph_copy = *graph;
+    static Graph graph_copy; // too large for the stack with many nodes
+    graph_copy = *graph;
     create_mst(&subProblem->oneTree,graph->nodes, graph->num_nodes);
     FibonacciHeap heap;
     create_fibonacci_heap(&heap);
-- 
2.43.0


From c04b5d1d90fe3b3ccea063e962828f1505d0bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:31 +0000
Subject: [PATCH 36/36] fix: edges are counted and numbered beyond 65535, which
 363 nodes need

---
 .../main/algorithms/branch_and_bound.c         |  4 ++--
 src/HybridSolver/main/algorithms/kruskal.c     | 18 +++++++++---------
 src/HybridSolver/main/algorithms/kruskal.h     |  6 +++---
 .../main/data_structures/b_and_b_data.h        |  2 +-
 src/HybridSolver/main/data_structures/graph.c  |  6 +++---
 src/HybridSolver/main/data_structures/graph.h  |  6 +++---
 src/HybridSolver/main/tsp_instance_reader.c    |  2 +-
 7 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index a7677c1..e710698 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -525,7 +525,7 @@ void constrained_kruskal(Graph * graph, SubProblem * subProblem, unsigned short
         }
     }
 
-    unsigned short num_edges_inG = 0;
+    unsigned int num_edges_inG = 0;
 
     while (num_edges_inG < graph->num_edges && num_edges_inMST < graph->num_nodes - 2) {
 
@@ -681,7 +681,7 @@ void bound(SubProblem *currentSubProb) {
             SubProblem analyzedSubProblem = *currentSubProb;
             BBNodeType type;
             if(!first_iter) {
-                for (unsigned short j = 0; j < problem->graph.num_edges; j++) {
+                for (unsigned int j = 0; j < problem->graph.num_edges; j++) {
                     if ((pi[used_graph->edges[j].src] +
                          pi[used_graph->edges[j].dest]) != 0) {
                         used_graph->edges[j].weight += (pi[used_graph->edges[j].src] +
diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 5c66525..7af145f 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -15,7 +15,7 @@
 #include "kruskal.h"
 
 
-static void swap(Graph *graph, unsigned short swap_1, unsigned short swap_2) {
+static void swap(Graph *graph, unsigned int swap_1, unsigned int swap_2) {
 
     Edge * edges = graph->edges;
 
@@ -36,11 +36,11 @@ static void swap(Graph *graph, unsigned short swap_1, unsigned short swap_2) {
 }
 
 
-static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short last) {
+static int pivot_quicksort(Graph * graph, unsigned int first, unsigned int last) {
     Edge * edges = graph->edges;
     Edge last_edge = edges[last];
     Edge first_edge = edges[first];
-    unsigned short middle = (first + last) / 2;
+    unsigned int middle = (first + last) / 2;
     Edge middle_edge = edges[middle];
     double pivot_weight = first_edge.weight;
     double pivot_prob = first_edge.prob;
@@ -74,8 +74,8 @@ static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short l
             swap(graph, first, middle);
         }
     }
-    unsigned short j = last;
-    unsigned short i = first + 1;
+    unsigned int j = last;
+    unsigned int i = first + 1;
     bool condition = true;
     while (condition) {
         Edge i_edge = edges[i];
@@ -107,10 +107,10 @@ static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short l
 }
 
 
-static void quick_sort(Graph * graph, unsigned short first, unsigned short last) {
+static void quick_sort(Graph * graph, unsigned int first, unsigned int last) {
     if (first < last) {
-        unsigned short pivot = pivot_quicksort(graph, first, last);
-        if(pivot -1 > first) {
+        unsigned int pivot = pivot_quicksort(graph, first, last);
+        if(pivot > first + 1) {
             quick_sort(graph, first, pivot - 1);
         }
         if(pivot + 1 < last) {
@@ -135,7 +135,7 @@ void kruskal(Graph * graph, MST * mst) {
     Forest forest;
     create_forest(&forest, graph->nodes, graph->num_nodes);
     wrap_quick_sort(graph);
-    unsigned short num_edges_inG = 0;
+    unsigned int num_edges_inG = 0;
     unsigned short num_edges_inMST = 0;
 
     while (num_edges_inG < graph->num_edges && num_edges_inMST < graph->num_nodes - 1) {
diff --git a/src/HybridSolver/main/algorithms/kruskal.h b/src/HybridSolver/main/algorithms/kruskal.h
index 63e5f2f..54e3fc5 100644
--- a/src/HybridSolver/main/algorithms/kruskal.h
+++ b/src/HybridSolver/main/algorithms/kruskal.h
@@ -24,7 +24,7 @@
  * @param swap_1 The index of the first Edge to swap.
  * @param swap_2 The index of the second Edge to swap.
  */
-static void swap(Graph * graph, unsigned short swap_1, unsigned short swap_2);
+static void swap(Graph * graph, unsigned int swap_1, unsigned int swap_2);
 
 
 //! The core of the quick sort algorithm.
@@ -36,7 +36,7 @@ static void swap(Graph * graph, unsigned short swap_1, unsigned short swap_2);
  * @param last The index of the last Edge to consider in the list of edges.
  * @return the index of the pivot.
  */
-static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short last);
+static int pivot_quicksort(Graph * graph, unsigned int first, unsigned int last);
 
 
 //! The quick sort algorithm O(n log n).
@@ -46,7 +46,7 @@ static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short l
  * @param first The index of the first Edge to consider in the list of edges.
  * @param last The index of the last Edge to consider in the list of edges.
  */
-static void quick_sort(Graph * graph, unsigned short first, unsigned short last);
+static void quick_sort(Graph * graph, unsigned int first, unsigned int last);
 
 
 //! The wrapper of the quick sort algorithm.
diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.h b/src/HybridSolver/main/data_structures/b_and_b_data.h
index f76eda6..23a0961 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.h
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.h
@@ -50,7 +50,7 @@ typedef struct SubProblem{
     unsigned short num_edges_in_cycle; ///< The number of edges in the cycle of the SubProblem.
     double prob; ///< The probability of the SubProblem to be the best tour.
     ConstrainedEdge cycleEdges [MAX_VERTEX_NUM]; ///< The edges in the cycle of the SubProblem.
-    unsigned short num_forbidden_edges; ///< The number of forbidden edges in the SubProblem.
+    unsigned int num_forbidden_edges; ///< The number of forbidden edges in the SubProblem.
     unsigned short num_mandatory_edges; ///< The number of mandatory edges in the SubProblem.
     int edge_to_branch; ///< The id of the edge to branch in the SubProblem.
     ConstrainedEdge mandatoryEdges [MAX_VERTEX_NUM]; ///< The mandatory edges in the SubProblem.
diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index d0932fe..1a52c6f 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -35,7 +35,7 @@ void create_graph(Graph * graph, List *nodes_list, List *edges_list, GraphKind k
     }
     delete_list_iterator(nodes_iterator);
 
-    unsigned short numEdges = 0;
+    unsigned int numEdges = 0;
     ListIterator *edges_iterator = create_list_iterator(edges_list);
     for (size_t i = 0; i < edges_list->size ; i++) {
         //add the source vertex to the data_structures
@@ -71,7 +71,7 @@ void create_graph(Graph * graph, List *nodes_list, List *edges_list, GraphKind k
 void create_euclidean_graph(Graph * graph, List *nodes) {
     List *edges_list = new_list();
 
-    unsigned short z = 0;
+    unsigned int z = 0;
     Edge edges [MAX_EDGES_NUM];
     ListIterator *i_nodes_iterator = create_list_iterator(nodes);
     for (size_t i = 0; i < nodes->size; i++) {
@@ -113,7 +113,7 @@ void print_graph(const Graph *G) {
     printf("\nCost: %lf\n", G->cost);
     printf("\nEdges: %i\n", G->num_edges);
 
-    for (unsigned short j = 0; j < G->num_edges; j++) {
+    for (unsigned int j = 0; j < G->num_edges; j++) {
         Edge curr = G->edges[j];
         printf("Edge%i:\t%i <--> %i\tweight = %.*f\tprob = %.*f\n",
                curr.symbol,
diff --git a/src/HybridSolver/main/data_structures/graph.h b/src/HybridSolver/main/data_structures/graph.h
index c80110c..64ebbd1 100644
--- a/src/HybridSolver/main/data_structures/graph.h
+++ b/src/HybridSolver/main/data_structures/graph.h
@@ -40,10 +40,10 @@ typedef struct Node {
 typedef struct Edge {
     unsigned short src; ///< ID of the source vertex.
     unsigned short dest; ///< ID of the destination vertex.
-    unsigned short symbol; ///< Symbol of the Edge, i.e. its unique ID.
+    unsigned int symbol; ///< Symbol of the Edge, i.e. its unique ID.
     double weight; ///< Weight of the Edge, 1 if the data_structures is not weighted.
     double prob; ///< Probability of the Edge to be in an optimal tour.
-    unsigned short positionInGraph; ///< Position of the Edge in the list of Edges of the Graph.
+    unsigned int positionInGraph; ///< Position of the Edge in the list of Edges of the Graph.
 }Edge;
 
 
@@ -52,7 +52,7 @@ typedef struct Graph {
     GraphKind kind; ///< Type of the Graph.
     double cost; ///< Sum of the weights of the Edges in the Graph.
     unsigned short num_nodes; ///< Number of Nodes in the Graph.
-    unsigned short num_edges; ///< Number of Edges in the Graph.
+    unsigned int num_edges; ///< Number of Edges in the Graph.
     bool orderedEdges; ///< True if the Edges are ordered by weight, false otherwise.
     Node nodes [MAX_VERTEX_NUM]; ///< Array of Nodes.
     Edge edges [MAX_EDGES_NUM]; ///< Array of Edges.
diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 50d1028..1c6b5da 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -94,7 +94,7 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
     graph->kind = WEIGHTED_GRAPH;
     graph->orderedEdges = false;
     unsigned short i = 0;
-    unsigned short z = 0;
+    unsigned int z = 0;
     char *line = NULL;
     size_t len = 0;
     bool first = true;
-- 
2.43.0

