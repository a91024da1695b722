From 0e8924a7fe54fe8bc495c3b2a9ea11d480ca6a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 001/150] fix: networkx 3 has no to_numpy_matrix, every
 CausalGraph query on latent arcs failed

---
 ylearn/causal_model/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 00e6820..61904d0 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -150,8 +150,8 @@ class CausalGraph:
         list
 
         """
-        W = nx.to_numpy_matrix(self.dag)
-        a, w_t = np.where(W >= 1), W.T.A
+        W = nx.to_numpy_array(self.dag)
+        a, w_t = np.where(W >= 1), W.T
         arcs, nodes = [], list(self.dag.nodes)
         for row, col in zip(a[0], a[1]):
             if w_t[row][col] >= 1 and (nodes[col], nodes[row]) not in arcs:
@@ -168,7 +168,7 @@ class CausalGraph:
     def to_adj_matrix(self):
         """Return the adjacency matrix.
         """
-        W = nx.to_numpy_matrix(self.dag)
+        W = np.asmatrix(nx.to_numpy_array(self.dag))
         return W
 
     # def to_adj_list(self):
-- 
2.43.0


From 18612349f939caae0344574a6a67f5a41b0e74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 002/150] fix: CausalGraph.observed_dag dropped the nodes
 without observed edges

---
 ylearn/causal_model/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 61904d0..b930dc8 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -287,6 +287,7 @@ class CausalGraph:
             for para in v:
                 edges.append((para, k, 0))
         ob_dag = nx.MultiDiGraph()
+        ob_dag.add_nodes_from(self.causation.keys())
         ob_dag.add_edges_from(edges)
         return ob_dag
 
-- 
2.43.0


From 2504f27ae80a3cd6659b9ca519b2cd36b6cdaaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 003/150] fix: networkx 3 has no to_numpy_matrix, the dynamic
 data generator failed

---
 ylearn/exp_dataset/gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/exp_dataset/gen.py b/ylearn/exp_dataset/gen.py
index b4e185a..f690e58 100644
--- a/ylearn/exp_dataset/gen.py
+++ b/ylearn/exp_dataset/gen.py
@@ -232,7 +232,7 @@ def simulate_er_dag(degree, nodes_dim, Bernoulli_trial, is_acyclic):
         return np.tril(A_und, k=is_acyclic)
 
     def _graph_to_adjmat(G):
-        return nx.to_numpy_matrix(G)
+        return nx.to_numpy_array(G)
 
     p = float(degree) / (nodes_dim - Bernoulli_trial)
     G_und = nx.generators.erdos_renyi_graph(n=nodes_dim, p=p)
-- 
2.43.0


From c267c90bcaa027924e0f26f0f49d6537cd8138ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 004/150] fix: CausalGraph.add_nodes in place never registered
 the new nodes

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index b930dc8..830e43e 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -334,7 +334,7 @@ class CausalGraph:
         ----------
         CausalGraph
         """
-        ori_nodes = self.dag.nodes
+        ori_nodes = set(self.dag.nodes)
 
         if not new:
             self.dag.add_nodes_from(nodes)
-- 
2.43.0


From c997a39a222317a4c6d8bce14b0805061a41488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 005/150] fix: CausalGraph.add_edge(observed=False) added half
 a latent confounding arc

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 830e43e..5df93f3 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -410,7 +410,7 @@ class CausalGraph:
             self.dag.add_edge(s, t, 0)
             self.causation[t].append(s)
         else:
-            self.dag.add_edge(s, t, 'n')
+            self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
     def remove_nodes(self, nodes, new=False):
         """
-- 
2.43.0


From 592eae86ba667f4c78ec0362f145266c634c280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 006/150] fix: CausalGraph edits wrote into the causation lists
 of the caller

---
 ylearn/causal_model/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 5df93f3..c9d213f 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -119,7 +119,9 @@ class CausalGraph:
             where U is an unobserved confounder of X and Y, can be converted
             equivalently to X <-->Y where <--> is a latent confounding arc.
         """
-        self.causation = defaultdict(list, causation)
+        self.causation = defaultdict(
+            list, {node: list(parents) for node, parents in causation.items()}
+        )
         self.ava_nodes = self.causation.keys()
         self.dag = self.observed_dag.copy() if dag is None else dag
 
-- 
2.43.0


From b254b6ec959b776dafa737ff48126b44073fb5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 007/150] fix: adding an edge twice, or with new=True, left
 CausalGraph.causation and dag out of step

---
 ylearn/causal_model/graph.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index c9d213f..ca55e27 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -371,7 +371,8 @@ class CausalGraph:
         if not new:
             if observed:
                 for edge in edge_list:
-                    self.causation[edge[1]].append(edge[0])
+                    if edge[0] not in self.causation[edge[1]]:
+                        self.causation[edge[1]].append(edge[0])
                     self.dag.add_edge(edge[0], edge[1], 0)
             else:
                 for edge in edge_list:
@@ -382,9 +383,10 @@ class CausalGraph:
             new_dag = deepcopy(self.dag)
             new_causation = deepcopy(self.causation)
             if observed:
-                new_dag.add_edges_from(edge_list)
                 for edge in edge_list:
-                    new_causation[edge[1]].append(edge[0])
+                    if edge[0] not in new_causation[edge[1]]:
+                        new_causation[edge[1]].append(edge[0])
+                    new_dag.add_edge(edge[0], edge[1], 0)
             else:
                 for edge in edge_list:
                     new_dag.add_edges_from(
@@ -410,7 +412,8 @@ class CausalGraph:
         """
         if observed:
             self.dag.add_edge(s, t, 0)
-            self.causation[t].append(s)
+            if s not in self.causation[t]:
+                self.causation[t].append(s)
         else:
             self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
-- 
2.43.0


From edd43827ba3c8b4135522743d711f1f3b1e1ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 008/150] fix: explicit_unob_var_dag merged its unobserved
 variables with observed nodes named U0, U1, ...

---
 ylearn/causal_model/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index ca55e27..3ce027a 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -303,7 +303,10 @@ class CausalGraph:
         nx.MultiDiGraph
         """
         new_dag = self.observed_dag
-        for i, (node1, node2) in enumerate(self.latent_confounding_arcs):
+        i = 0
+        for node1, node2 in self.latent_confounding_arcs:
+            while f'U{i}' in new_dag:
+                i += 1
             new_dag.add_edges_from(
                 [(f'U{i}', node1, 'n'), (f'U{i}', node2, 'n')]
             )
-- 
2.43.0


From 018b02f3c690150a4e9c8ac3aeec9cb414ef31bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 009/150] fix: general identification conditioned on the joint
 instead of the current distribution in sub graphs

---
 ylearn/causal_model/model.py | 10 ++++------
 ylearn/causal_model/prob.py  | 38 +++++++++++++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index f1018b1..17bae83 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -217,9 +217,8 @@ class CausalModel:
                 product_expression = set()
                 for element in s:
                     product_expression.add(
-                        Prob(
-                            variables={element},
-                            conditional=set(v_topo[: v_topo.index(element)]),
+                        prob.condition_on(
+                            element, set(v_topo[: v_topo.index(element)]), v
                         )
                     )
                 return Prob(marginal=s.difference(y), product=product_expression)
@@ -233,9 +232,8 @@ class CausalModel:
                         product_expressioin = set()
                         for element in subset:
                             product_expressioin.add(
-                                Prob(
-                                    variables={element},
-                                    conditional=set(v_topo[: v_topo.index(element)]),
+                                prob.condition_on(
+                                    element, set(v_topo[: v_topo.index(element)]), v
                                 )
                             )
                         sub_prob = Prob(product=product_expressioin)
diff --git a/ylearn/causal_model/prob.py b/ylearn/causal_model/prob.py
index 775d2ad..e8dae06 100644
--- a/ylearn/causal_model/prob.py
+++ b/ylearn/causal_model/prob.py
@@ -17,7 +17,7 @@ class Prob:
         The conditional set (y in the above example).
     
     divisor : set
-        Not defined yet.
+        Set of the probability objects by which the product is divided.
     
     marginal : set
         The sum set (w in the above example) for marginalizing the probability.
@@ -96,8 +96,44 @@ class Prob:
             for p in self.product:
                 expression = expression + '\\left[' + p.parse() + '\\right]'
 
+        # Find the divisors
+        for p in self.divisor:
+            expression = expression + '\\left[' + p.parse() + '\\right]^{-1}'
+
         return expression
 
+    def condition_on(self, element, predecessors, nodes):
+        """
+        Return the conditional probability of element given its predecessors
+        in this probability distribution.
+
+        Parameters
+        ----------
+        element : str
+
+        predecessors : set of str
+
+        nodes : set of str
+            All nodes of this probability distribution.
+
+        Returns
+        ----------
+        Prob
+        """
+        if not (self.divisor or self.product):
+            return Prob(variables={element}, conditional=predecessors)
+
+        def marginalize(others):
+            return Prob(variables=self.variables,
+                        conditional=self.conditional,
+                        divisor=self.divisor,
+                        marginal=self.marginal.union(others),
+                        product=self.product)
+
+        others = nodes.difference(predecessors).difference({element})
+        return Prob(product={marginalize(others)},
+                    divisor={marginalize(others.union({element}))})
+
     def show_latex_expression(self):
         """
         Show the latex expression.
-- 
2.43.0


From 84b7c20313b23866d6a64c8aa378c78fce3ad8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 010/150] fix: is_valid_backdoor_set accepted sets with
 descendants of the treatment

---
 ylearn/causal_model/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 17bae83..0c8fc80 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -564,6 +564,12 @@ class CausalModel:
         ava_nodes = self.causal_graph.causation.keys()
         check_nodes(ava_nodes, treatment, outcome, set_)
 
+        # neither the descendants of the treatments nor the outcomes can be
+        # adjusted for
+        set_ = set(set_) if not isinstance(set_, str) else {set_}
+        if set_.intersection(self.causal_graph.descendents(treatment).union(outcome)):
+            return False
+
         # build the causal graph with unobserved variables explicit
         modified_dag = self.causal_graph.remove_outgoing_edges(
             treatment, new=True
-- 
2.43.0


From b2e27c227821bad13e5967359c1ee6bfe5039a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 011/150] fix: get_backdoor_set returned invalid sets under
 latent confounding, or None where a valid set exists

---
 ylearn/causal_model/model.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 0c8fc80..d0437c7 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -295,11 +295,15 @@ class CausalModel:
         self.outcome = outcome
 
         if identify_method == "auto":
-            result_dict = {
-                "ID": self.id(outcome, treatment),
-                "backdoor": self.get_backdoor_set(treatment, outcome, "simple"),
-                "frontdoor": self.get_frontdoor_set(treatment, outcome, "simple"),
-            }
+            result_dict = {"ID": self.id(outcome, treatment)}
+            for name, method in (
+                ("backdoor", self.get_backdoor_set),
+                ("frontdoor", self.get_frontdoor_set),
+            ):
+                try:
+                    result_dict[name] = method(treatment, outcome, "simple")
+                except IdentificationError:
+                    result_dict[name] = None
             self.cached_result[f"Treatment: {treatment}, Outcome: {outcome}"].append(
                 result_dict
             )
@@ -623,24 +627,21 @@ class CausalModel:
             treatment, new=True
         ).explicit_unob_var_dag
 
-        def determine(modified_dag, treatment, outcome):
-            if all([self.causal_graph.causation[t] == [] for t in treatment]):
-                return nx.d_separated(modified_dag, treatment, outcome, set())
-            return True
-
-        # raise exception if no set can be used as the backdoor set
-        if not determine(modified_dag, treatment, outcome):
-            print("No set can satisfy the backdoor criterion.")
-
-            return None
-
         # Simply take all parents of both treatment and outcome as the backdoor set
         if adjust == "simple":
             # TODO: if the parent of x_i is the descendent of another x_j
             backdoor_list = []
             for t in treatment:
-                backdoor_list += self.causal_graph.causation[t]
+                backdoor_list += [
+                    p for p in self.causal_graph.causation[t]
+                    if p not in treatment and p not in backdoor_list
+                ]
             adset = set(backdoor_list)
+            if not self.is_valid_backdoor_set(adset, treatment, outcome):
+                raise IdentificationError(
+                    "The parents of the treatment do not satisfy the backdoor"
+                    " criterion."
+                )
         # use other methods
         else:
             # Get all backdoor sets. currently implenmented
-- 
2.43.0


From 2bf5789482167b5c862998071df61c4e8309db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 012/150] fix: frontdoor adjustment split node names into
 characters and emptied the treatment set of the caller

---
 ylearn/causal_model/model.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index d0437c7..a228346 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -818,7 +818,9 @@ class CausalModel:
             of treatments on outcomes.
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set_, set(treatment), set(outcome))
+        check_nodes(ava_nodes, set_, treatment, outcome)
+        if treatment in set_ or outcome in set_:
+            return False
 
         # rule 1, intercept all directed paths from treatment to outcome
         for path in nx.all_simple_paths(
@@ -855,14 +857,18 @@ class CausalModel:
             2 elements (adjustment_set, Prob)
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set(treatment), set(outcome))
-
-        if type(treatment) is set and type(outcome) is set:
-            assert (
-                len(treatment) == 1 and len(outcome) == 1
-            ), "Treatment and outcome should be sets which contain one"
-            "element for frontdoor adjustment."
-            treatment, outcome = treatment.pop(), outcome.pop()
+        check_nodes(ava_nodes, treatment, outcome)
+
+        def single(node):
+            if isinstance(node, str):
+                return node
+            assert len(node) == 1, (
+                "Treatment and outcome should be sets which contain one"
+                " element for frontdoor adjustment."
+            )
+            return next(iter(node))
+
+        treatment, outcome = single(treatment), single(outcome)
 
         # Find the initial set which will then be used to generate all
         # possible frontdoor sets with the method powerset()
-- 
2.43.0


From 27eff5f7f9f7e5909d76cfd960870fe529f8fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 013/150] fix: is_frontdoor_set accepted sets containing
 parents of the treatment

---
 ylearn/causal_model/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a228346..2712272 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -830,10 +830,11 @@ class CausalModel:
                 return False
 
         # rule 2, there is no unblocked back-door path from treatment to set_
-        for subset in set_:
-            for path in self.get_backdoor_path(treatment, subset):
-                if self.is_connected_backdoor_path(path):
-                    return False
+        modified_dag = self.causal_graph.remove_outgoing_edges(
+            {treatment}, new=True
+        ).explicit_unob_var_dag
+        if not nx.d_separated(modified_dag, {treatment}, set(set_), set()):
+            return False
 
         # rule 3, all backdoor paths from set_ to outcome are blocked by
         # treatment
-- 
2.43.0


From f03a7ac8411b92e6ea68a6406903042311e38df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 014/150] fix: has_collider reported a collider on paths whose
 edges all point backwards

---
 ylearn/causal_model/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 2712272..08cc75a 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -762,6 +762,9 @@ class CausalModel:
                             return False
                         j = i
                         break
+                else:
+                    # all edges of the path point backwards
+                    return False
                 for i, node in enumerate(path[j + 1 :], j + 1):
                     if node in dag.predecessors(path[i - 1]):
                         return True
-- 
2.43.0


From 52bccdeb1d4357e8f02b693fa4c7fec5cdb36907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 015/150] fix: get_iv returned descendants of an outcome that
 causes the treatment

---
 ylearn/causal_model/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 08cc75a..a35f490 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -959,7 +959,9 @@ class CausalModel:
         # We also should not count on descendents of ancestors of the outcome which
         # may have effects on y through backdoor paths
         # excluded_nodes_des = nx.descendants(modified_graph, excluded_nodes_an)
-        excluded_nodes_des = descendents_of_iter(modified_graph, excluded_nodes_an)
+        excluded_nodes_des = descendents_of_iter(
+            modified_graph, excluded_nodes_an | {outcome}
+        )
         iv = waited_instrument.difference(excluded_nodes_des)
 
         if not iv:
-- 
2.43.0


From 25dd5812c594d585483abdcc35fbec50143d9c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 016/150] fix: CausalModel.estimate checked and adjusted for
 the treatment of an earlier identification

---
 ylearn/causal_model/model.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a35f490..3bc353d 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -112,6 +112,7 @@ class CausalModel:
         """
         self.data = data
         self._adjustment_set = None
+        self._adjustment_pair = None
         self.treatment = None
         self.outcome = None
         self.cached_result = defaultdict(list)
@@ -399,10 +400,9 @@ class CausalModel:
 
         # make sure the adjustment and the covariate are valid backdoor adjustment sets
         if adjustment is None and covariate is None:
-            if self._adjustment_set is None:
-                adjustment = self.get_backdoor_set(
-                    self.treatment, self.outcome, "simple"
-                )[0]
+            pair = self._as_sets(treatment, outcome)
+            if self._adjustment_set is None or self._adjustment_pair != pair:
+                adjustment = self.get_backdoor_set(treatment, outcome, "simple")[0]
             else:
                 adjustment = self._adjustment_set[0]
         else:
@@ -413,7 +413,7 @@ class CausalModel:
                 temp_set = temp_set.pop()
 
             assert self.is_valid_backdoor_set(
-                temp_set, self.treatment, self.outcome
+                temp_set, treatment, outcome
             ), "The adjustment set should be a valid backdoor adjustment set,"
             f"but was given {temp_set}."
 
@@ -432,6 +432,10 @@ class CausalModel:
 
         return effect
 
+    @staticmethod
+    def _as_sets(*names):
+        return tuple({n} if isinstance(n, str) else set(n) for n in names)
+
     def identify_estimate(
         self,
         data,
@@ -679,6 +683,7 @@ class CausalModel:
             if any((adjust == "all", adjust == "minimal")):
                 backdoor_list = backdoor_set_list
                 self._adjustment_set = backdoor_set_list
+                self._adjustment_pair = (treatment, outcome)
             else:
                 raise IdentificationError(
                     "Do not support backdoor set styles other than simple, all"
-- 
2.43.0


From 9309feebb3cdf82d72fcc73bef7bb45bef5e7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 017/150] fix: CausalModel.estimate passed the sets given by
 identify to estimators, which reject sets

---
 ylearn/causal_model/model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 3bc353d..0156e43 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -407,16 +407,22 @@ class CausalModel:
                 adjustment = self._adjustment_set[0]
         else:
             if adjustment is not None and covariate is not None:
-                temp_set = set(adjustment).union(set(covariate))
+                temp_set = set().union(*self._as_sets(adjustment, covariate))
             else:
-                temp_set = [set(x) for x in [adjustment, covariate] if x is not None]
-                temp_set = temp_set.pop()
+                temp_set = adjustment if adjustment is not None else covariate
+                (temp_set,) = self._as_sets(temp_set)
 
             assert self.is_valid_backdoor_set(
                 temp_set, treatment, outcome
             ), "The adjustment set should be a valid backdoor adjustment set,"
             f"but was given {temp_set}."
 
+        # the estimator models do not accept sets of names
+        outcome, treatment, covariate, adjustment = (
+            sorted(names) if isinstance(names, (set, frozenset)) else names
+            for names in (outcome, treatment, covariate, adjustment)
+        )
+
         # fit the estimator_model if it is not fitted
         if not estimator_model._is_fitted:
             estimator_model.fit(
-- 
2.43.0


From b4aadcba8d6384f839b1f7c96724a3ee430f1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 018/150] fix: identify_estimate iterated over the
 identification tuple and estimated with the unfitted model

---
 ylearn/causal_model/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 0156e43..b7f162b 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -510,8 +510,17 @@ class CausalModel:
 
         if isinstance(identify_method, (list, tuple)):
             identify_method = identify_method[1]
+        if identify_method == "auto":
+            identify_method = "all"
+
+        adj_set, _ = self.get_backdoor_set(treatment, outcome, adjust=identify_method)
+        if identify_method == "simple":
+            adj_set = [adj_set]
 
-        adj_set = self.get_backdoor_set(treatment, outcome, adjust=identify_method)
+        outcome, treatment = (
+            sorted(names) if isinstance(names, (set, frozenset)) else names
+            for names in (outcome, treatment)
+        )
 
         self._est_result_dict = defaultdict(list)
 
@@ -522,13 +531,13 @@ class CausalModel:
                 data=data,
                 outcome=outcome,
                 treatment=treatment,
-                covariate=sub_adj_set,
+                covariate=sorted(sub_adj_set),
                 **kwargs,
             )
 
             self._est_result_dict["est_models"].append(est_model)
 
-            effect = estimator_model.estimate(data=data, quantity=quantity)
+            effect = est_model.estimate(data=data, quantity=quantity)
             self._est_result_dict["effects"].append(effect)
 
         return self._est_result_dict
-- 
2.43.0


From 34a89ea4ccab657c848e73354f1afb695e375c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 019/150] fix: matrix2array lost the edges of ndarray matrices
 below the diagonal

---
 ylearn/causal_discovery/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index c1bef28..6bce99f 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -89,7 +89,7 @@ class BaseDiscovery:
                     vt = matrix.iloc[col, row]
                 else:
                     v = matrix[row, col]
-                    vt = matrix[row, col]
+                    vt = matrix[col, row]
                 if abs(v) >= abs(vt):
                     r.append([row, col, v])
                 else:
-- 
2.43.0


From 763c07391d62e03c99dd8341ac031e37d1e2fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 020/150] fix: matrix2dict rejected the threshold which its
 callers pass

---
 ylearn/causal_discovery/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index 6bce99f..db87dad 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -39,7 +39,7 @@ class BaseDiscovery:
         return nx.to_numpy_array(g)
 
     @staticmethod
-    def matrix2dict(matrix, names=None, depth=None):
+    def matrix2dict(matrix, names=None, depth=None, threshold=None):
         assert isinstance(matrix, (np.ndarray, pd.DataFrame))
         assert matrix.ndim == 2 and matrix.shape[0] == matrix.shape[1]
         assert names is None or len(names) == matrix.shape[0]
@@ -56,6 +56,9 @@ class BaseDiscovery:
         if isinstance(matrix, pd.DataFrame):
             matrix = matrix.values
 
+        if threshold is not None:
+            matrix = np.where(np.abs(matrix) < threshold, 0, matrix)
+
         g = nx.from_numpy_array(matrix, create_using=nx.DiGraph).reverse()
 
         d = OrderedDict()
-- 
2.43.0


From 1e8e9802519101adaa9ef08ddc058cbfed2d8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 021/150] fix: trim_cycle failed on cycles with negative
 weights

---
 ylearn/causal_discovery/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index db87dad..82775c2 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -16,7 +16,7 @@ class BaseDiscovery:
         assert isinstance(matrix, np.ndarray)
         assert matrix.ndim == 2 and matrix.shape[0] == matrix.shape[1]
 
-        g = nx.from_numpy_array(matrix, create_using=nx.DiGraph)  # .reverse()
+        g = nx.from_numpy_array(np.abs(matrix), create_using=nx.DiGraph)  # .reverse()
 
         def trim_with_weight():
             edge_weights = nx.get_edge_attributes(g, 'weight')
@@ -36,7 +36,7 @@ class BaseDiscovery:
             pass
 
         assert nx.is_directed_acyclic_graph(g)
-        return nx.to_numpy_array(g)
+        return np.where(nx.to_numpy_array(g, weight=None) != 0, matrix, 0.)
 
     @staticmethod
     def matrix2dict(matrix, names=None, depth=None, threshold=None):
-- 
2.43.0


From 3aabb715deec7e1d62e9be75a1737025bdf6c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 022/150] fix: PgmProxy returned the matrix in another order
 than the columns of the data

---
 ylearn/causal_discovery/_proxy_pgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_proxy_pgm.py b/ylearn/causal_discovery/_proxy_pgm.py
index 44d1cc1..d25b649 100644
--- a/ylearn/causal_discovery/_proxy_pgm.py
+++ b/ylearn/causal_discovery/_proxy_pgm.py
@@ -68,7 +68,7 @@ class PgmProxy(BaseDiscovery):
                                       columns=nodes, index=nodes)
         matrix_full = pd.DataFrame(np.zeros((df.shape[1], df.shape[1])),
                                    columns=columns, index=columns)
-        matrix_full = (matrix_full + matrix_learned).fillna(0.0)
+        matrix_full = (matrix_full + matrix_learned).fillna(0.0).loc[columns, columns]
 
         if isinstance(data, pd.DataFrame):
             matrix = matrix_full
-- 
2.43.0


From e70f8821690bd0e58ba13302b8bf3547f2a3e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 023/150] fix: GolemDiscovery ignored equal_variances

---
 ylearn/causal_discovery/_discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 9d53144..2eae51d 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -300,6 +300,7 @@ class GolemDiscovery(BaseDiscovery):
                  device=None, dtype=None, random_state=None):
         super(GolemDiscovery, self).__init__()
         self.scale = scale
+        self.equal_variances = equal_variances
         self.dtype = dtype
         self.device = device
         self.lambdaa = lambdaa
@@ -361,7 +362,7 @@ class GolemDiscovery(BaseDiscovery):
 
         logger.info(f'learning data{data.shape} with device={device}, dtype={dtype}, dims={dims}')
 
-        model = Golem(dims=dims, equal_variances=True, lambdaa=self.lambdaa,
+        model = Golem(dims=dims, equal_variances=self.equal_variances, lambdaa=self.lambdaa,
                       lambdab=self.lambdab, dtype=dtype, device=device)
 
         data_t = torch.tensor(data, dtype=dtype, device=device)
-- 
2.43.0


From 20e24d99305737939ba8cbfff8b3b1389ab833b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 024/150] fix: DagmaDiscovery learned from the uncentered
 second moments

---
 ylearn/causal_discovery/_discovery.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_discovery/_discovery.py b/ylearn/causal_discovery/_discovery.py
index 2eae51d..cfc5ac1 100644
--- a/ylearn/causal_discovery/_discovery.py
+++ b/ylearn/causal_discovery/_discovery.py
@@ -423,9 +423,8 @@ class Dagma(nn.Module):
         self.warm_iter, self.max_iter = 3e4, 6e4
 
     def forward(self, X):
-        self.X = X
-        self.X = -X.mean(axis=0, keepdims=True)
-        self.cov = X.t() @ X / float(self.n)
+        self.X = X - X.mean(dim=0, keepdim=True)
+        self.cov = self.X.t() @ self.X / float(self.n)
         # dif = torch.eye(self.d) - self.w_est
         # rhs = self.cov @ dif
         # loss = 0.5 * torch.trace(dif.t() @ rhs)
-- 
2.43.0


From af607fb43a2de1956f334d8c85cd0047ca929e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 025/150] fix: the dynamic discoveries used the same lag for
 every order

---
 ylearn/causal_discovery/_dydiscovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_dydiscovery.py b/ylearn/causal_discovery/_dydiscovery.py
index 22fdf71..0413f0e 100644
--- a/ylearn/causal_discovery/_dydiscovery.py
+++ b/ylearn/causal_discovery/_dydiscovery.py
@@ -26,7 +26,7 @@ class Dynotears(nn.Module):
     def forward(self, Xlags):
         M = torch.matmul(Xlags[self.k:], self.w_est)
         for k in range(self.k):
-            M += torch.matmul(Xlags[:-self.k], self.p_est[:, :, k])
+            M += torch.matmul(Xlags[k:k - self.k], self.p_est[:, :, k])
         return M
 
     def h_func(self):
@@ -197,7 +197,7 @@ class DyGolem(nn.Module):
     def forward(self, Xlags):
         M = torch.matmul(Xlags[self.k:], self.w_est)
         for k in range(self.k):
-            M += torch.matmul(Xlags[:-self.k], self.p_est[:, :, k])
+            M += torch.matmul(Xlags[k:k - self.k], self.p_est[:, :, k])
         return M
 
 class DygolemCausalDiscovery(BaseDiscovery):
-- 
2.43.0


From ad72cebf1d7b97724a8cc9d37cd0e2961212e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 026/150] fix: SLearner.estimate overwrote the treat and
 control labels, the second estimate failed or was wrong

---
 ylearn/estimator_model/meta_learner.py | 34 ++++++++++++--------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 04544c6..b495ab6 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -352,8 +352,20 @@ class SLearner(BaseEstModel):
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
-        self.treat = treat
-        self.control = control
+        self.treat = get_tr_ctrl(
+            treat,
+            self._comp_transformer,
+            treat=True,
+            one_hot=False,
+            discrete_treat=True,
+        )
+        self.control = get_tr_ctrl(
+            control,
+            self._comp_transformer,
+            treat=False,
+            one_hot=False,
+            discrete_treat=True,
+        )
 
         x = np.concatenate((wv, x), axis=1)
         y = y.squeeze()
@@ -389,7 +401,7 @@ class SLearner(BaseEstModel):
             The transformed one-hot vectors
         """
         if x.shape[1] > 1:
-            if not self._is_fitted:
+            if not hasattr(self, "ord_transformer"):
                 self.ord_transformer = OrdinalEncoder(categories=categories)
                 self.ord_transformer.fit(x)
 
@@ -405,7 +417,7 @@ class SLearner(BaseEstModel):
             for i, x_i in enumerate(x_transformed):
                 x[i] = self.label_dict[tuple(x_i)]
 
-        if not self._is_fitted:
+        if not hasattr(self, "oh_transformer"):
             self.oh_transformer = ArrayOneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
@@ -450,20 +462,6 @@ class SLearner(BaseEstModel):
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
         n = wv.shape[0]
-        self.treat = get_tr_ctrl(
-            self.treat,
-            self._comp_transformer,
-            treat=True,
-            one_hot=False,
-            discrete_treat=True,
-        )
-        self.control = get_tr_ctrl(
-            self.control,
-            self._comp_transformer,
-            treat=False,
-            one_hot=False,
-            discrete_treat=True,
-        )
 
         treat = np.zeros(
             self._x_d,
-- 
2.43.0


From c5216cfc58170327f2440663cf27d2824efaf56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 027/150] fix: fitting an estimator again kept the treatment
 encoders of the earlier fit

---
 ylearn/estimator_model/double_ml.py     |  1 +
 ylearn/estimator_model/doubly_robust.py |  4 ++++
 ylearn/estimator_model/effect_score.py  |  1 +
 ylearn/estimator_model/meta_learner.py  | 12 ++++++++++++
 4 files changed, 18 insertions(+)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index f187985..46da0ec 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -394,6 +394,7 @@ class DoubleML(BaseEstModel):
             # convert discrete treatment features to onehot vectors
             # note that when there are multiple treatments, we should convert
             # the problem into a single discrete treatment problem
+            self._is_fitted = False
             x = self.comp_transormer(x, categories)
 
         self._x_d = x.shape[1]
diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 2761a77..d4c70d7 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -275,6 +275,10 @@ class DoublyRobust(BaseEstModel):
         else:
             categories = list(self.categories)
 
+        # the encoders of an earlier fit do not know the treatments of this data
+        self.__dict__.pop('ord_transformer', None)
+        self.__dict__.pop('oh_transformer', None)
+
         # transform x into one_hot vectors
         x = self.comp_transormer(x, categories=categories)
         self._x_d = x.shape[1]
diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index d883c4e..4593b23 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -271,6 +271,7 @@ class RLoss(DoubleML):
                 categories = list(self.categories)
 
             # convert discrete treatment features to onehot vectors
+            self._is_fitted = False
             x = self.comp_transormer(x, categories)
 
         self._x_d = x.shape[1]
diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index b495ab6..a9ab430 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -210,6 +210,10 @@ class SLearner(BaseEstModel):
 
         self.combined_treat = combined_treatment
 
+        # the encoders of an earlier fit do not know the treatments of this data
+        self.__dict__.pop("ord_transformer", None)
+        self.__dict__.pop("oh_transformer", None)
+
         # get numpy data
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._y_d = y.shape[1]
@@ -724,6 +728,10 @@ class TLearner(BaseEstModel):
 
         self.combined_treat = combined_treatment
 
+        # the encoders of an earlier fit do not know the treatments of this data
+        self.__dict__.pop("ord_transformer", None)
+        self.__dict__.pop("oh_transformer", None)
+
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._y_d = y.shape[1]
 
@@ -1229,6 +1237,10 @@ class XLearner(BaseEstModel):
 
         self.combined_treat = combined_treatment
 
+        # the encoders of an earlier fit do not know the treatments of this data
+        self.__dict__.pop("ord_transformer", None)
+        self.__dict__.pop("oh_transformer", None)
+
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._y_d = y.shape[1]
 
-- 
2.43.0


From ccd793a657658f510f139ffa21a41adac2c6b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 028/150] fix: effect_nji of the meta learners took the
 separate treatments for outcomes

---
 ylearn/estimator_model/meta_learner.py | 36 +++++++-------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index a9ab430..53e82e7 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -297,15 +297,9 @@ class SLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
-
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
@@ -809,15 +803,9 @@ class TLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
-
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
@@ -1327,15 +1315,9 @@ class XLearner(BaseEstModel):
     def effect_nji(self, data=None):
         y_nji = self._prepare4est(data=data)
 
-        if y_nji.ndim == 3:
-            n, y_d, x_d = y_nji.shape
-        elif y_nji.ndim == 2:
-            n, y_d = y_nji.shape
-            x_d = 1
-        else:
-            n, y_d, x_d = y_nji.shape[0], 1, 1
-
-        y_nji = y_nji.reshape(n, y_d, x_d)
+        n = y_nji.shape[0]
+        y_d = len(self.outcome_classes_) if self.proba_output else self._y_d
+        y_nji = y_nji.reshape(n, y_d, -1)
         zeros_ = np.zeros((n, y_d, 1))
         y_nji = np.concatenate((zeros_, y_nji), axis=2)
 
-- 
2.43.0


From c3408f5e4009441c1db05af4baefe99a57c32b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 029/150] fix: the meta learners dropped the axis of the
 examples when estimating a single row

---
 ylearn/estimator_model/meta_learner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 53e82e7..2dbba26 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -16,6 +16,12 @@ from .utils import (
 )
 
 
+def _squeeze_effect(effect):
+    """Drop the outcome and treatment axes of length 1, but never the axis of the examples."""
+    axes = tuple(i for i in range(1, effect.ndim) if effect.shape[i] == 1)
+    return effect.squeeze(axis=axes)
+
+
 class SLearner(BaseEstModel):
     r"""
     SLearn uses one machine learning model to compute the causal effects.
@@ -521,7 +527,7 @@ class SLearner(BaseEstModel):
                 fnji = (self.model.predict(x_treat) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        return _squeeze_effect(f_nji)
 
     # def __repr__(self) -> str:
     #     return f'SLearner'
@@ -1018,7 +1024,7 @@ class TLearner(BaseEstModel):
                 fnji = (model.predict(wv) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        return _squeeze_effect(f_nji)
 
     # def __repr__(self) -> str:
     #     return f'TLearner'
@@ -1569,9 +1575,9 @@ class XLearner(BaseEstModel):
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-            return f_nji.squeeze()
+            return _squeeze_effect(f_nji)
         else:
-            return f_nji[:, target_outcome, :].squeeze()
+            return _squeeze_effect(f_nji[:, target_outcome, :])
 
     # def __repr__(self) -> str:
     #     return f'XLearner'
-- 
2.43.0


From ccad4ef04ac9e4e5790814949a837d4d4b93f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 030/150] fix: XLearner with separate treatments failed to
 estimate discrete outcomes

---
 ylearn/estimator_model/meta_learner.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 2dbba26..ee372dc 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -1263,14 +1263,12 @@ class XLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = (
                     self.ft_model.classes_
                 )  # TODO: note that, in some extreme case when the treat group only has one class of outcome, then this will render an error, but currently we ignore such case
-            except:
-                classes_ = self._fitted_dict_separa["models"][0].classes_
-            # else:
-            #     classes_ = None
+            else:
+                classes_ = self._fitted_dict_separa["f0_model"].classes_
         else:
             classes_ = None
 
@@ -1499,6 +1497,7 @@ class XLearner(BaseEstModel):
         _wv_control, _y_control = get_groups(treat_arrays[0], x, False, wv, y)
         _y_control = _y_control.squeeze()
         f0_model.fit(_wv_control, _y_control)
+        self._fitted_dict_separa["f0_model"] = f0_model
 
         if self.proba_output:
             self._outcome_oh = ArrayOneHotEncoder(categories=[f0_model.classes_])
@@ -1571,7 +1570,7 @@ class XLearner(BaseEstModel):
         for i, (kt_model, k0_model) in enumerate(model_list):
             pred_t = kt_model.predict(wv)
             pred_0 = k0_model.predict(wv)
-            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, self._y_d)
+            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, y_d)
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-- 
2.43.0


From 6d3ec6783f4fa80b5c2f66b5e8f6de2e8ec861d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 031/150] fix: TLearner reported the outcome classes of an
 earlier combined fit

---
 ylearn/estimator_model/meta_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index ee372dc..ce45a86 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -797,9 +797,9 @@ class TLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = self.xt_model.classes_
-            except:
+            else:
                 classes_ = self._fitted_dict_separa["models"][0].classes_
         else:
             classes_ = None
-- 
2.43.0


From d2d4a66b0958134f71a2c30a182137cb1678f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 032/150] fix: treat and control were not accepted as ndarray,
 or as list with str and numeric labels

---
 ylearn/estimator_model/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index ee0dfbd..a6929bd 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -81,9 +81,11 @@ def get_tr_ctrl(tr_crtl, trans, *, treat=False, one_hot=False, discrete_treat=Tr
         if not isinstance(tr_crtl, np.ndarray):
             if not isinstance(tr_crtl, (list, tuple)):
                 tr_crtl = [tr_crtl]
-            tr_crtl = np.array(tr_crtl).reshape(1, -1)
+            # do not convert the labels of numeric treatments to str
+            mixed = len(set(isinstance(i, str) for i in tr_crtl)) > 1
+            tr_crtl = np.array(tr_crtl, dtype=object if mixed else None)
 
-        tr_crtl = trans(tr_crtl).reshape(1, -1)
+        tr_crtl = trans(tr_crtl.reshape(1, -1)).reshape(1, -1)
 
         if not one_hot:
             tr_crtl = convert4onehot(tr_crtl).astype(int)[0]
-- 
2.43.0


From 491dceeb8a9b3e65a87f5df05725dd7b14e5e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 033/150] fix: DoubleML failed without covariates, although it
 accepts adjustments alone

---
 ylearn/estimator_model/double_ml.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 46da0ec..ca95697 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -376,6 +376,7 @@ class DoubleML(BaseEstModel):
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._v = v
+        self._n = len(data)
         self._y_d = y.shape[1]
         cfold = self.cf_fold
 
@@ -632,7 +633,7 @@ class DoubleML(BaseEstModel):
 
         if self.covariate_transformer is not None and v is not None:
             v = self.covariate_transformer.transform(v)
-        v = np.hstack([np.ones((v.shape[0], 1)), v])
+        v = self._add_constant(v, self._n if data is None else len(data))
         n, v_d = v.shape[0], v.shape[1]
 
         # may need modification for multi-dim outcomes.
@@ -791,8 +792,12 @@ class DoubleML(BaseEstModel):
 
     def _cal_x_prime(self, x, x_hat, v):
         x_diff = x - x_hat
-        v = np.hstack([np.ones((v.shape[0], 1)), v])
-        return nd_kron(x_diff, v)
+        return nd_kron(x_diff, self._add_constant(v, x_diff.shape[0]))
+
+    @staticmethod
+    def _add_constant(v, n):
+        const = np.ones((n, 1))
+        return const if v is None else np.hstack([const, v])
 
     # def __repr__(self) -> str:
     #     return f'Double Machine Learning Estimator'
-- 
2.43.0


From 422e24fbaf595e47cc0ec8c5a1a66f39f1f2624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 034/150] fix: DoubleML.estimate took the treat of an earlier
 call for its default, and its index for a label

---
 ylearn/estimator_model/double_ml.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index ca95697..92df204 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -373,6 +373,8 @@ class DoubleML(BaseEstModel):
             covariate=covariate,
             **kwargs,
         )
+        self._default_treat = kwargs.get("treat")
+        self._default_control = kwargs.get("control")
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._v = v
@@ -477,10 +479,10 @@ class DoubleML(BaseEstModel):
             The estimated causal effect with the type of the quantity.
         """
         fij = self._prepare4est(data=data)
-        if hasattr(self, "treat") and treat is None:
-            treat = self.treat
-        if hasattr(self, "control") and control is None:
-            control = self.control
+        if treat is None:
+            treat = self._default_treat
+        if control is None:
+            control = self._default_control
 
         dis_tr = self.is_discrete_treatment
 
@@ -586,8 +588,8 @@ class DoubleML(BaseEstModel):
         n, x_d = y_nji.shape[0], y_nji.shape[2]
 
         if self.is_discrete_treatment:
-            if hasattr(self, "control") and control is None:
-                control = self.control
+            if control is None:
+                control = self._default_control
             control = get_tr_ctrl(
                 control,
                 self.comp_transormer,
-- 
2.43.0


From 08770a916f9f0ab5cbbdeb1509c6c06050d0d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 035/150] fix: DoubleML.estimate paired the treat values of a
 continuous treatment with the wrong rows

---
 ylearn/estimator_model/double_ml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 92df204..0ec5c6d 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -519,9 +519,10 @@ class DoubleML(BaseEstModel):
                 treat = treat.reshape(-1, self._x_d)
             if isinstance(control, np.ndarray):
                 control = control.reshape(-1, self._x_d)
-                effect = np.einsum("nji, ni->nji", fij, treat - control)
-            else:
-                effect = fij * (treat - control)
+            diff = treat - control
+            if isinstance(diff, np.ndarray):
+                diff = diff.reshape(-1, 1, self._x_d)
+            effect = fij * diff
 
         if target_outcome is not None:
             assert (
-- 
2.43.0


From 3bac6470e01edc1ad8c5978985a29dff53491f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 036/150] fix: DoubleML.estimate took ndarrays of discrete
 labels for indices

---
 ylearn/estimator_model/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 0ec5c6d..270ed8e 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -492,7 +492,7 @@ class DoubleML(BaseEstModel):
         if isinstance(control, pd.Series):
             control = control.values
 
-        if not isinstance(treat, np.ndarray):
+        if dis_tr or not isinstance(treat, np.ndarray):
             treat = get_tr_ctrl(
                 treat,
                 self.comp_transormer,
@@ -501,7 +501,7 @@ class DoubleML(BaseEstModel):
                 discrete_treat=dis_tr,
             )
 
-        if not isinstance(control, np.ndarray):
+        if dis_tr or not isinstance(control, np.ndarray):
             control = get_tr_ctrl(
                 control,
                 self.comp_transormer,
-- 
2.43.0


From 987f00b3791aeb454b5c24d95c11efa83c5862ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 037/150] fix: DoubleML failed to cross fit with proba_output

---
 ylearn/estimator_model/double_ml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 270ed8e..61ca270 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -670,7 +670,7 @@ class DoubleML(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            return self.y_model.classes_
+            return self.y_hat_dict["models"][0].classes_
         else:
             return None
 
@@ -700,8 +700,6 @@ class DoubleML(BaseEstModel):
             idx = np.arange(start=0, stop=wv.shape[0])
             fitted_result["train_test_id"].append((idx, idx))
         else:
-            fitted_result["paras"].append(np.ones_like(target) * np.nan)
-
             for i, (train_id, test_id) in enumerate(folds):
                 model_ = clone(model)
                 temp_wv = args[0][train_id]
@@ -710,6 +708,10 @@ class DoubleML(BaseEstModel):
                 model_.fit(temp_wv, target_train, **kwargs)
                 target_predict = model_.__getattribute__(pred_func)(temp_wv_test)
 
+                if i == 0:
+                    shape = (len(target),) + target_predict.shape[1:]
+                    fitted_result["paras"].append(np.full(shape, np.nan))
+
                 fitted_result["models"].append(model_)
                 fitted_result["paras"][0][test_id] = target_predict
                 fitted_result["train_test_id"].append((train_id, test_id))
-- 
2.43.0


From a8614d352d1f074627f2456ae3eac88e212d28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 038/150] fix: DoublyRobust predicted every potential outcome
 without a treatment

---
 ylearn/estimator_model/doubly_robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index d4c70d7..450a940 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -32,7 +32,7 @@ class _YModelWrapper:
 
         for i in range(self.x_d):
             x = np.zeros((n, self.x_d))
-            x[:, i] == 1
+            x[:, i] = 1
             x = np.concatenate((wv, x), axis=1)
             y_nji[:, :, i] = self.model.predict(x).reshape(n, self.y_d)
 
-- 
2.43.0


From ff896d52c1c272ae8597a5ca02ff1de0b7ea5da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 039/150] fix: DoubleML fitted the yx_model of the caller,
 estimators sharing it overwrote each other

---
 ylearn/estimator_model/double_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 61ca270..05add52 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -307,7 +307,7 @@ class DoubleML(BaseEstModel):
         if yx_model is None:
             self.yx_model = LinearRegression()
         else:
-            self.yx_model = yx_model
+            self.yx_model = clone(yx_model)
 
         self.adjustment_transformer = adjustment_transformer
         self.covariate_transformer = covariate_transformer
-- 
2.43.0


From 1a36e458044d701abb373574915c54a2ccf390c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 040/150] fix: permuted learners failed on discrete outcomes
 estimated without probabilities

---
 ylearn/estimator_model/_permuted.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index c438ea0..6abf916 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -29,7 +29,7 @@ def _default_estimate_options(learner, effect_nji=False):
         else:
             fn = learner.estimate
         params = inspect.signature(fn).parameters
-        if 'target_outcome' in params.keys():
+        if getattr(learner, 'proba_output', True) and 'target_outcome' in params.keys():
             classes = getattr(learner, 'outcome_classes_', None)
             if isinstance(classes, (list, tuple, np.ndarray)):
                 options['target_outcome'] = classes[-1]
@@ -55,7 +55,9 @@ def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, targ
         assert len(effect.shape) == 3
         assert effect.shape[2] == 2
 
-        classes = getattr(learner, 'outcome_classes_', None) if learner.is_discrete_outcome else None
+        classes = None
+        if learner.is_discrete_outcome and getattr(learner, 'proba_output', True):
+            classes = getattr(learner, 'outcome_classes_', None)
         if classes is not None:
             assert effect.shape[1] == len(classes)
             if target_outcome is not None:
-- 
2.43.0


From 8d518062ab427acc25bc99f67a1cfa37d3bea127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 041/150] fix: effect_nji of permuted learners failed on the
 training data and on several outcomes

---
 ylearn/estimator_model/_permuted.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index 6abf916..6ad4ff5 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -42,11 +42,11 @@ def _copy_and_fit(learner, data, outcome, treatment, treat, control, **kwargs):
     return learner
 
 
-def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, target_outcome):
+def _effect_nji(learner_and_sign, data, n, outcome, treatment, treat, control, target_outcome):
     y_count = 1 if isinstance(outcome, str) else len(outcome)
 
     if treat == control:
-        effect = np.zeros((len(data), y_count, y_count))
+        effect = np.zeros((n, y_count, 1))
     else:
         assert isinstance(learner_and_sign, tuple)
 
@@ -64,7 +64,7 @@ def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, targ
                 assert isinstance(classes, (list, tuple, np.ndarray))
                 nz = np.nonzero(np.array(classes) == target_outcome)[0]
                 if len(nz) == 0:
-                    assert ValueError(f'Invalid target_outcome: "{target_outcome}"')
+                    raise ValueError(f'Invalid target_outcome: "{target_outcome}"')
                 outcome_idx = nz[0]
             else:
                 outcome_idx = len(classes) - 1
@@ -192,6 +192,7 @@ class PermutedLearner(BaseEstModel):
                 learners[(t, c)] = l
 
         self.learners_ = learners
+        self._n = len(data)
         self._is_fitted = True
         return self
 
@@ -238,18 +239,19 @@ class PermutedLearner(BaseEstModel):
         else:
             treats = product(*[self.treats_[x] for x in treatment])
 
+        n = self._n if data is None else len(data)
         if n_jobs in {0, 1}:
             # estimate learners one by one
             effects = [_effect_nji(
                 self._get_learner(treat, control, silent=True),
-                data, self.outcome, self.treatment, treat, control, target_outcome)
+                data, n, self.outcome, self.treatment, treat, control, target_outcome)
                 for treat in treats]
         else:
             # estimate learners with joblib
             job_options = self._get_job_options(n_jobs)
             effects = Parallel(**job_options)(delayed(_effect_nji)(
                 self._get_learner(treat, control, silent=True),
-                data, self.outcome, self.treatment, treat, control, target_outcome
+                data, n, self.outcome, self.treatment, treat, control, target_outcome
             ) for treat in treats)
 
         effects = np.concatenate(effects, axis=2)
-- 
2.43.0


From 4336b5a2d415689d97e3ce6ac5ebe5b3930580d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 042/150] fix: RLoss assigned its columns by position to the
 names of the tested estimator

---
 ylearn/estimator_model/effect_score.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index 4593b23..d88e26d 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -336,12 +336,13 @@ class RLoss(DoubleML):
         w = self._w
 
         data_dict = {}
-        if self.covariate is not None:
-            for i, name in enumerate(test_estimator.covariate):
-                data_dict[name] = v[:, i]
-        if self.adjustment is not None:
-            for i, name in enumerate(test_estimator.adjustment):
-                data_dict[name] = w[:, i]
+        for names, values in ((self.covariate, v), (self.adjustment, w)):
+            if names is None:
+                continue
+            if isinstance(names, str):
+                names = [names]
+            for i, name in enumerate(names):
+                data_dict[name] = values[:, i]
 
         test_data = pd.DataFrame(data_dict)
 
-- 
2.43.0


From 4ff76473f86af7b0ea16b794fc4e6ba48b39e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 043/150] fix: DoubleML regressed on linearly dependent
 residuals of discrete treatments, effects could be off by rounding errors of
 any size

---
 ylearn/estimator_model/double_ml.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 05add52..1c29f58 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -647,8 +647,10 @@ class DoubleML(BaseEstModel):
         # f[i*vd:(i+1)*vd]
         # TODO: rewrite this with einsum
         coef = self.yx_model.coef_
+        # the effect of the reference level of a discrete treatment is zero
+        first = 1 if self.is_discrete_treatment else 0
         # fij will be the desired treatment effect for treatment i on outcome j
-        fij = np.full((n, y_d, x_d), np.NaN)
+        fij = np.zeros((n, y_d, x_d))
 
         def cal_fij(coef_vec, v):
             coef_matrix = coef_vec.reshape(-1, v_d)
@@ -658,11 +660,11 @@ class DoubleML(BaseEstModel):
         if y_d > 1:
             for j in range(y_d):
                 for n, vn in enumerate(v):
-                    fij[n, j, :] = cal_fij(coef[j], vn)
+                    fij[n, j, first:] = cal_fij(coef[j], vn)
         else:
             coef_matrix = coef.reshape(-1, v_d)
             for n, vn in enumerate(v):
-                fij[n, 0, :] = coef_matrix.dot(vn.reshape(-1, 1)).reshape(1, -1)
+                fij[n, 0, first:] = coef_matrix.dot(vn.reshape(-1, 1)).reshape(1, -1)
 
         return fij
 
@@ -797,6 +799,10 @@ class DoubleML(BaseEstModel):
 
     def _cal_x_prime(self, x, x_hat, v):
         x_diff = x - x_hat
+        if self.is_discrete_treatment:
+            # the residuals of all the levels add up to zero, regressing on all of
+            # them is numerically unstable, thus use the first level as the reference
+            x_diff = x_diff[:, 1:]
         return nd_kron(x_diff, self._add_constant(v, x_diff.shape[0]))
 
     @staticmethod
-- 
2.43.0


From 93893f7f63b998b5b4747e32246a8a40f47f23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 044/150] fix: DoubleML predicted continuous treatments with
 predict_proba when the outcome is a probability

---
 ylearn/estimator_model/double_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 1c29f58..ac62f61 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -689,7 +689,7 @@ class DoubleML(BaseEstModel):
             pred_func = self.x_pred_func
         else:
             target_converted = target
-            pred_func = self.y_pred_func
+            pred_func = self.y_pred_func if is_ymodel else self.x_pred_func
 
         if folds is None:
             wv = args[0]
-- 
2.43.0


From a61aea3cd16c7700b2a27ff89be2335ee433c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 045/150] fix: the optimal treatment selection bounds of
 ApproxBound used a lower bound of the effect for that of the outcome, upper
 bounds came first

---
 ylearn/estimator_model/approximation_bound.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 9001c9c..8f38c11 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -378,9 +378,9 @@ class ApproxBound(BaseEstModel):
 
         optimal_upper1 = xt_prob * yt - (1 - x0_prob) * y_lower \
             + (1 - xt_prob - x0_prob) * y_upper
-        optimal_lower1 = x0_prob * lower - x0_prob * y0
-        optimal_upper2 = yt - xt_prob * lower - x0_prob * y0
-        optimal_lower2 = xt_prob * yt + x0_prob * lower - y0
+        optimal_lower1 = x0_prob * y_lower - x0_prob * y0
+        optimal_upper2 = yt - xt_prob * y_lower - x0_prob * y0
+        optimal_lower2 = xt_prob * yt + x0_prob * y_lower - y0
 
-        return ((upper, lower), (optimal_upper1, optimal_lower1),
-                (optimal_upper2, optimal_lower2))
+        return ((upper, lower), (optimal_lower1, optimal_upper1),
+                (optimal_lower2, optimal_upper2))
-- 
2.43.0


From ab75d1b7bc55d1e3cc1740f4dff5173b38db0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 046/150] fix: ApproxBound kept the encoders and treatment
 probabilities of earlier fits, compared labels with indices on new data,
 failed on discrete covariates and given probabilities

---
 ylearn/estimator_model/approximation_bound.py | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 8f38c11..dccb6e7 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -1,4 +1,5 @@
 import numpy as np
+from sklearn.base import clone
 from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
 
 
@@ -131,6 +132,8 @@ class ApproxBound(BaseEstModel):
             covariate=covariate,
             is_discrete_covariate=is_discrete_covariate
         )
+        # fit the transformers again, they may be those of an earlier fit
+        self._is_fitted = False
 
         y, x, v = convert2array(data, outcome, treatment, covariate)
         # self._y_max = y.max(axis=0)
@@ -154,23 +157,27 @@ class ApproxBound(BaseEstModel):
 
         self.x_label = np.array(convert4onehot(x_one_hot).astype(int))
 
+        # keep the arguments of the user, they are also used in the next fit
+        if v is not None and self.is_discrete_covariate:
+            self.covariate_transformer = OneHotEncoder()
+            v = self.covariate_transformer.fit_transform(v).toarray()
+
         if self.x_prob is None:
             if v is not None:
-                if self.is_discrete_covariate:
-                    v = OneHotEncoder().fit_transform(v)
-
-                self.x_model.fit(v, self.x_label)
-                self.x_prob = self.x_model.predict_proba(v)
+                self._x_model = clone(self.x_model)
+                self._x_model.fit(v, self.x_label)
+                self._x_prob = self._predict_x_prob(v)
             else:
-                self.x_prob = np.unique(self.x_label, return_counts=True)[1]
-                self.x_prob = (self.x_prob / self._n).reshape(1, -1)
+                self._x_prob = np.bincount(self.x_label, minlength=self._x_d)
+                self._x_prob = (self._x_prob / self._n).reshape(1, -1)
         else:
             # TODO: modify the following line for multiple treatment
-            self.x_prob = self.x_prob.reshape(1, -1)
+            self._x_prob = np.asarray(self.x_prob).reshape(1, -1)
 
         self._v = v
         xv = get_wv(x_one_hot, v)
-        self.y_model.fit(xv, y.squeeze(), **kwargs)
+        self._y_model = clone(self.y_model)
+        self._y_model.fit(xv, y.squeeze(), **kwargs)
 
         self._is_fitted = True
 
@@ -303,6 +310,13 @@ class ApproxBound(BaseEstModel):
 
         return x
 
+    def _predict_x_prob(self, v):
+        # the training data may not contain all combinations of the treatments
+        x_prob = np.zeros((v.shape[0], self._x_d))
+        x_prob[:, self._x_model.classes_] = self._x_model.predict_proba(v)
+
+        return x_prob
+
     def _prepare4est(
         self,
         data,
@@ -312,7 +326,7 @@ class ApproxBound(BaseEstModel):
         y_lower,
     ):
         # x_d = self._x_d
-        x_prob = self.x_prob
+        x_prob = self._x_prob
 
         treat = get_tr_ctrl(
             treat,
@@ -349,7 +363,11 @@ class ApproxBound(BaseEstModel):
                     data, self.outcome, self.covariate, self.treatment
                 )
                 n = y.shape[0]
-                x_prob = self.x_model.predict_proba(v)
+                x = convert4onehot(self.comp_transormer(x))
+                if self.is_discrete_covariate:
+                    v = self.covariate_transformer.transform(v).toarray()
+                if self.x_prob is None:
+                    x_prob = self._predict_x_prob(v)
 
         y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
         y_ctrl = get_groups(control, x.reshape(-1, 1), False, y)[0]
@@ -366,8 +384,8 @@ class ApproxBound(BaseEstModel):
 
         xt = get_wv(xt, v)
         x0 = get_wv(x0, v)
-        yt = self.y_model.predict(xt)
-        y0 = self.y_model.predict(x0)
+        yt = self._y_model.predict(xt)
+        y0 = self._y_model.predict(x0)
         xt_prob = x_prob[:, treat]
         x0_prob = x_prob[:, control]
 
-- 
2.43.0


From 1e37c74219f4be3dd22cf9e7326fbf1b4b3f3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 047/150] fix: NP2SLS failed without covariates, with discrete
 instruments and with a list as the basis of the covariates

---
 ylearn/estimator_model/iv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ebcf7ff..85f92db 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -169,7 +169,7 @@ class NP2SLS(BaseEstModel):
         if self.is_discrete_instrument:
             self.instrument_transformer = OneHotEncoder()
             self.instrument_transformer.fit(z)
-            z = self.instrument_transformer.transform(z)
+            z = self.instrument_transformer.transform(z).toarray()
 
         if isinstance(treatment_basis, list) or isinstance(treatment_basis, tuple):
             method, degree = treatment_basis[0], treatment_basis[1]
@@ -183,7 +183,7 @@ class NP2SLS(BaseEstModel):
         else:
             self._z_basis_func = deepcopy(instrument_basis)
 
-        if isinstance(covar_basis, str) or isinstance(covar_basis, tuple):
+        if isinstance(covar_basis, list) or isinstance(covar_basis, tuple):
             method, degree = covar_basis[0], covar_basis[1]
             self._v_basis_func = self.get_basis_func(degree, method, v, **kwargs)
         else:
@@ -194,7 +194,7 @@ class NP2SLS(BaseEstModel):
         # get expansion basis functions for parameters
         x_transformed = self._x_basis_func.fit_transform(x)
         z_transformed = self._z_basis_func.fit_transform(z)
-        v_transformed = self._v_basis_func.fit_transform(v)
+        v_transformed = self._v_basis_func.fit_transform(v) if v is not None else None
 
         self._v_transformed = v_transformed
         self._w = w
-- 
2.43.0


From 4be362557c11d7e844f68a4acfebcdf09b593b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 048/150] fix: NP2SLS.estimate failed for the quantities ATE
 and CATE

---
 ylearn/estimator_model/iv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 85f92db..16aa42e 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -252,9 +252,9 @@ class NP2SLS(BaseEstModel):
             assert (
                 self.covariate is not None
             ), "Need caovariate to compute the CATE in this case."
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         if quantity == "ATE":
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         elif quantity is None:
             return yt - y0
         else:
-- 
2.43.0


From f2dd71e42ae4b068c323131616b9fb247a513d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 049/150] fix: NP2SLS.effect_nji always failed

---
 ylearn/estimator_model/iv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 16aa42e..722bd49 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -281,7 +281,7 @@ class NP2SLS(BaseEstModel):
 
                     y_nji[:, :, treat] = y_pred
 
-                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, aixs=2)
+                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, axis=2)
             else:
                 labels = [
                     np.arange(len(i)) for i in self.treatment_transformer.categories_
@@ -303,14 +303,16 @@ class NP2SLS(BaseEstModel):
                 )
 
         else:
-            yt, y0 = self._prepare4est(data=data, marginal_effect=False)
+            yt, y0 = self._prepare4est(
+                data=data, treat=None, control=None, marginal_effect=False
+            )
             # TODO: the definition of effect_nji may need to be modified in the future verison in this case
             if yt.ndim == 1:
                 yt = yt.reshape(-1, 1)
                 y0 = y0.reshape(-1, 1)
 
             n, y_d = yt.shape
-            y_nji = np.full(n, y_d, 2)
+            y_nji = np.full((n, y_d, 2), np.nan)
 
             y_nji[:, :, 0] = y0
             y_nji[:, :, 1] = yt
-- 
2.43.0


From 762876f57517f7b4ed032c4c5bb287207cee5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 050/150] fix: NP2SLS.estimate failed for counterfactuals on
 the training data, or with discrete treatments

---
 ylearn/estimator_model/iv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 722bd49..587314f 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -198,6 +198,7 @@ class NP2SLS(BaseEstModel):
 
         self._v_transformed = v_transformed
         self._w = w
+        self._x = x
 
         if v_transformed is not None:
             zv = nd_kron(z_transformed, v_transformed)
@@ -418,13 +419,15 @@ class NP2SLS(BaseEstModel):
         if data is None:
             v = self._v_transformed
             w = self._w
-            x = None
+            x = self._x
             n = self._n
         else:
             w, x, v = convert2array(
                 data, self.adjustment, self.treatment, self.covariate
             )
             v = self._v_basis_func.transform(v) if v is not None else None
+            if self.is_discrete_treatment:
+                x = self.treatment_transformer.transform(x)
 
             n = len(data)
 
-- 
2.43.0


From 6d5f8253b163cd1b38bc9e8b7589705137b2aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 051/150] fix: CausalTree.estimate returned None for the
 quantities ATE and CATE

---
 ylearn/estimator_model/causal_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 18947e4..f247dbd 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -425,7 +425,7 @@ class CausalTree(BaseEstModel):
         logger.debug(f"Start estimating the causal effect with the type of {quantity}.")
 
         if quantity == "ATE" or quantity == "CATE":
-            np.mean(effect, axis=0)
+            return np.mean(effect, axis=0)
         else:
             return effect
 
-- 
2.43.0


From d7e9730606a60f1744f3a490da6533f4731b495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 052/150] fix: fit of CausalTree, GRForest and CTCausalForest
 returned None instead of the fitted estimator

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 +++-
 ylearn/estimator_model/_generalized_forest/_grf.py         | 2 +-
 ylearn/estimator_model/causal_tree.py                      | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 578e7ab..245632d 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -316,7 +316,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
 
-        self._fit_with_array(y, x, w, v, sample_weight=sample_weight, **kwargs)
+        return self._fit_with_array(
+            y, x, w, v, sample_weight=sample_weight, **kwargs
+        )
 
     def estimate(self, data=None, **kwargs):
         """Estimate the causal effect of the treatment on the outcome in data.
diff --git a/ylearn/estimator_model/_generalized_forest/_grf.py b/ylearn/estimator_model/_generalized_forest/_grf.py
index e8c72be..1f0662a 100644
--- a/ylearn/estimator_model/_generalized_forest/_grf.py
+++ b/ylearn/estimator_model/_generalized_forest/_grf.py
@@ -179,7 +179,7 @@ class GRForest(BaseCausalForest):
             An instance of GRForest.
         """
         adjustment = None
-        super().fit(
+        return super().fit(
             data,
             outcome,
             treatment,
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index f247dbd..d85933e 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -396,7 +396,7 @@ class CausalTree(BaseEstModel):
         )
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
-        self._fit_with_array(y, x, w, v, treat, control)
+        return self._fit_with_array(y, x, w, v, treat, control)
 
     def estimate(self, data=None, quantity=None):
         """Estimate the causal effect of the treatment on the outcome in the data.
-- 
2.43.0


From 5243f5194b4d773f40a488ba16823540be081938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 053/150] fix: an integer honest_subsample_num was rejected
 with AttributeError

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++--
 ylearn/estimator_model/causal_tree.py                      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 245632d..f06fca2 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -503,9 +503,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num
 
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index d85933e..7e81208 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -503,9 +503,9 @@ class CausalTree(BaseEstModel):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num / sub_samples
 
-- 
2.43.0


From 962e47a95be1ac629aba64e134bb2dfbe85f29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 054/150] fix: CausalTree estimated only some rows of the
 training data when there are more than two treatments

---
 ylearn/estimator_model/causal_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 7e81208..1593d96 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -750,6 +750,8 @@ class CausalTree(BaseEstModel):
         _tr = np.all(treat == x, axis=1)
         _crtl = np.all(control == x, axis=1)
         label = np.any((_tr, _crtl), axis=0)
+        # estimate uses all the training data, also of the other treatments
+        self._wv = wv
         y = y[label]
         wv = wv[label]
         sample_weight = _tr[label].astype(int)
@@ -763,7 +765,6 @@ class CausalTree(BaseEstModel):
 
         # Determine output settings
         n_samples, self.n_features_in_ = wv.shape  # dimension of the input
-        self._wv = wv
 
         if y.ndim == 1:
             y = y.reshape(-1, 1)
-- 
2.43.0


From 1c7a5a816ff4e28a6a29a2a34623aead5d5d48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 055/150] fix: CausalTree.fit did not accept a single label
 that is no int, or several of str and numeric treatments

---
 ylearn/estimator_model/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index a6929bd..603400c 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -96,14 +96,15 @@ def get_treat_control(treat_ctrl, trans, treat=False):
     n_treat = len(trans.categories_)
 
     if treat_ctrl is not None:
-        if not isinstance(treat_ctrl, int):
-            assert len(treat_ctrl) == n_treat
-        else:
+        if not isinstance(treat_ctrl, (list, tuple, np.ndarray)):
             treat_ctrl = [
                 treat_ctrl,
             ]
+        assert len(treat_ctrl) == n_treat
 
-        treat_ctrl = np.array(list(treat_ctrl))
+        # do not convert the labels of numeric treatments to str
+        mixed = len(set(isinstance(i, str) for i in treat_ctrl)) > 1
+        treat_ctrl = np.array(list(treat_ctrl), dtype=object if mixed else None)
         treat_ctrl = trans.transform(treat_ctrl.reshape(1, -1))
     else:
         if treat:
-- 
2.43.0


From 9dea1054a271f50e097fe950851903af0c8b373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 056/150] fix: the criterion of GrfTree wrote beyond its buffer
 in nodes with less samples than treatments, GRForest crashed

---
 ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
index d73096c..94bbadf 100644
--- a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
+++ b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
@@ -80,6 +80,8 @@ int init_criterion( /* input */
 
         // alloc work memory
         int n_node_samples = end - start;
+        // the solution has d_tr rows, which may be more than the samples of the node
+        int n_solve = n_node_samples > d_tr ? n_node_samples : d_tr;
         int mem_size= n_node_samples * d_y;  // y_node
         mem_size += n_node_samples * d_tr; // tr_node
         mem_size += d_y * d_tr; // ls_coef
@@ -87,7 +89,7 @@ int init_criterion( /* input */
         mem_size += n_node_samples * d_tr; // grad_coef
         mem_size += n_node_samples * d_y; // y_dif
         mem_size += n_node_samples * d_tr; // tr_dif
-        mem_size += n_node_samples * d_y; // y_node_cpy
+        mem_size += n_solve * d_y; // y_node_cpy
 
         double *mem_work = new double[mem_size];
         double *y_node = mem_work;
-- 
2.43.0


From 46ab9dc48994250c0fdc46353acf56a0e6156e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 057/150] fix: GRForest did not center the outcome by its local
 mean

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index f06fca2..1ca1d1c 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -646,7 +646,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         inv_grad = inverse_grad(grad_)
 
         y = np.tile(y.reshape(1, -1), (n_test, 1))
-        y_dif = y - alpha * y
+        y_dif = y - (alpha * y).sum(axis=1).reshape(n_test, 1)
         theta_ = ((alpha * y_dif).reshape(n_test, n_train, 1) * x_dif).sum(1)
 
         return inv_grad, theta_
-- 
2.43.0


From 2b0e74e1d17ed9c93eadb9b3dd41f109674412b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 058/150] fix: forests ignored their random_state

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 1ca1d1c..0341822 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -259,6 +259,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         )
         BaseEstModel.__init__(
             self,
+            random_state=random_state,
             is_discrete_outcome=is_discrete_outcome,
             is_discrete_treatment=is_discrete_treatment,
             categories=categories,
-- 
2.43.0


From 8cba7ea3ddd2a223a6e47d69a59a82f6f0e9b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 059/150] fix: trees of GRForest without any split put weights
 on the samples they had not drawn

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 0341822..f2b8095 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -575,8 +575,8 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             v_pred = t.apply(None, v[s][:honest_sample_num])
             idx = s[:honest_sample_num]
 
-        # TODO: note that if a predict value is 0 this line may cause some unexpected result, so it may be more approriate to create an nan array instead
-        leaf_record = np.zeros(v.shape[0])
+        # the root, which is a leaf if it is not split, has the index 0
+        leaf_record = np.full(v.shape[0], -1)
         leaf_record[idx] = v_pred
 
         # #####: I modify this line
-- 
2.43.0


From 5d1af603ca119d9db6531b2afbfb507cbcc1ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 060/150] fix: the weights of honest GRForests did not sum to 1
 where leaves are empty, effects were biased

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index f2b8095..093cb27 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -606,7 +606,10 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             )
             for i, e in enumerate(self.estimators_)
         )
-        alpha = np.mean(alpha_collection, axis=0)
+        # a leaf may be empty in honest trees, such trees tell nothing about the sample
+        total = np.sum(alpha_collection, axis=0)
+        n_trees = np.sum([a.any(axis=1) for a in alpha_collection], axis=0)
+        alpha = total / np.maximum(n_trees, 1).reshape(-1, 1)
         return alpha
 
     def _compute_aug(self, y, x, alpha):
-- 
2.43.0


From 8444d5dc1a1c5193e80f770a56a347cb881fd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 061/150] fix: apply of the forests always failed, as did
 feature_importance without any split

---
 .../estimator_model/_generalized_forest/_base_forest.py  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 093cb27..6113514 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -358,11 +358,14 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return the index of the leaf v ends up in.
         """
         results = Parallel(**self._job_options())(
-            delayed(tree.apply)(v, v, check_input=False) for tree in self.estimators_
+            delayed(self._apply_tree)(tree, v) for tree in self.estimators_
         )
 
         return np.array(results).T
 
+    def _apply_tree(self, tree, v):
+        return tree.apply(v, v)
+
     @property
     def feature_importance(self):
         return self.feature_importances_()
@@ -375,7 +378,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         )
 
         if not all_importances:
-            return np.zeros(self.n_features_in_, dtype=np.float64)
+            return np.zeros(
+                self.estimators_[0].n_features_in_, dtype=np.float64
+            )
 
         all_importances = np.mean(all_importances, axis=0, dtype=np.float64)
         return all_importances / np.sum(all_importances)
-- 
2.43.0


From ceb621b10c1de66bd44c4eb2780213e7cafaaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 062/150] fix: CTCausalForest could not be imported as
 documented, failed to estimate on the training data and to give apply and
 feature_importance

---
 ylearn/estimator_model/__init__.py                         | 6 +++++-
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 ylearn/estimator_model/causal_tree.py                      | 7 +++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/__init__.py b/ylearn/estimator_model/__init__.py
index 39ee55f..e9bcbd7 100644
--- a/ylearn/estimator_model/__init__.py
+++ b/ylearn/estimator_model/__init__.py
@@ -24,7 +24,7 @@ except ImportError as e:  # torch not ready
             raise ImportError(_msg_deep_iv)
 
 try:
-    from .causal_tree import CausalTree
+    from .causal_tree import CausalTree, CTCausalForest
 except ImportError as e:  # cython extension not ready
     _msg_causal_tree = f"{e}"
 
@@ -32,6 +32,10 @@ except ImportError as e:  # cython extension not ready
         def __init__(self, *args, **kwargs):
             raise ImportError(_msg_causal_tree)
 
+    class CTCausalForest:
+        def __init__(self, *args, **kwargs):
+            raise ImportError(_msg_causal_tree)
+
 try:
     from ._generalized_forest._grf import GRForest
 except ImportError as e:  # cython extension not ready
diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 6113514..4ddd9ab 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -392,7 +392,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         if x.ndim == 1:
             x = x.reshape(-1, 1)
 
-        for k, value in {"y": y, "x": x, "v": v}.items():
+        for k, value in {"y": y, "x": x, "w": w, "v": v}.items():
             setattr(self, "_" + k, value)
 
         # Determin treatment settings
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 1593d96..d8084b5 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -615,6 +615,10 @@ class CausalTree(BaseEstModel):
 
         return self.tree_.compute_feature_importances()
 
+    @property
+    def feature_importances_(self):
+        return self.feature_importance
+
     @property
     def n_features_(self):
         return self.n_features_in_
@@ -1095,6 +1099,9 @@ class CTCausalForest(BaseCausalForest):
 
         return t
 
+    def _apply_tree(self, tree, v):
+        return tree.apply(wv=v)
+
     def _get_honest_samples_num(self, sub_samples):
         return self.base_estimator._get_honest_samples_num(sub_samples)
 
-- 
2.43.0


From 00176cbabadafc345c1d368b29ab17970d988eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 063/150] fix: CTCausalForest can be fitted when the labels of
 the treatment are not numbers

---
 .../estimator_model/_generalized_forest/_base_forest.py   | 8 ++++++--
 ylearn/estimator_model/causal_tree.py                     | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 4ddd9ab..c9a130a 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -416,8 +416,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
         if getattr(y, "dtype", None) != DOUBLE or not y.flags.contiguous:
             y = np.ascontiguousarray(y, dtype=DOUBLE)
-        if getattr(x, "dtype", None) != DOUBLE or not x.flags.contiguous:
-            x = np.ascontiguousarray(x, dtype=DOUBLE)
+        x = self._check_treatments(x)
 
         sub_sample_num_ = self._get_sub_samples_num(
             n_samples=x.shape[0], sub_samples=self.sub_sample_num
@@ -489,6 +488,11 @@ class BaseCausalForest(BaseEstModel, BaseForest):
 
         return self
 
+    def _check_treatments(self, x):
+        if getattr(x, "dtype", None) != DOUBLE or not x.flags.contiguous:
+            x = np.ascontiguousarray(x, dtype=DOUBLE)
+        return x
+
     # TODO: support oob related methods
     def _get_sub_samples_num(self, n_samples, sub_samples):
         if sub_samples is None:
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index d8084b5..62a708c 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -1099,6 +1099,10 @@ class CTCausalForest(BaseCausalForest):
 
         return t
 
+    def _check_treatments(self, x):
+        # the trees encode the labels of the treatments, which may not be numbers
+        return x
+
     def _apply_tree(self, tree, v):
         return tree.apply(wv=v)
 
-- 
2.43.0


From e8cd2d5262da867f7c1db30f9a276f82d218b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 064/150] fix: CausalForest.estimate applies the
 covariate_transformer, as fit does

---
 .../estimator_model/_generalized_forest/_base_forest.py   | 3 +++
 ylearn/estimator_model/causal_forest.py                   | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index c9a130a..d2b8166 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -529,6 +529,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
     def _prepare4est(self, data=None, batch_size=100):
         assert self._is_fitted, "The model is not fitted yet."
         v = self._check_features(data=data)
+        return self._estimate_with_array(v, batch_size=batch_size)
+
+    def _estimate_with_array(self, v, batch_size=100):
         a = [
             self.__do_prepare4est(v[i : i + batch_size])
             for i in range(0, len(v), batch_size)
diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 25ec0aa..bcc3e7e 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from . import DoubleML
-from .utils import get_tr_ctrl
+from .utils import convert2array, get_tr_ctrl
 from ._generalized_forest._grf import GRForest
 
 
@@ -217,6 +217,12 @@ class CausalForest(DoubleML):
         return x_prime
 
     def estimate(self, data=None, **kwargs):
+        if self.covariate_transformer is not None:
+            # the forest is fitted in the transformed covariates
+            v = self._v if data is None else convert2array(data, self.covariate)[0]
+            v = self.covariate_transformer.transform(v)
+            return self.yx_model._estimate_with_array(v)
+
         return self.yx_model.estimate(data=data)
 
     def apply(self, v):
-- 
2.43.0


From f8950ee5f916f61603a9d0cc381d8ea0e3a6c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 065/150] fix: CausalForest.effect_nji raised AttributeError

---
 ylearn/estimator_model/causal_forest.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index bcc3e7e..69d3402 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -212,6 +212,7 @@ class CausalForest(DoubleML):
             else:
                 ctrl = 0
 
+            self._control_idx = int(np.ravel(ctrl)[0])
             x_prime = np.delete(x_prime, ctrl, axis=1)
 
         return x_prime
@@ -225,6 +226,14 @@ class CausalForest(DoubleML):
 
         return self.yx_model.estimate(data=data)
 
+    def effect_nji(self, data=None):
+        effect = self.estimate(data=data)
+        effect = effect.reshape(len(effect), 1, -1)
+        if self.is_discrete_treatment:
+            # the effect of the control relative to itself
+            effect = np.insert(effect, self._control_idx, 0, axis=2)
+        return effect
+
     def apply(self, v):
         """
         Apply trees in the forest to X, return leaf indices.
-- 
2.43.0


From e797d9466a34fb3d1a3dd25d0b2543dea9d4299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 066/150] fix: CausalTree dropped all the control rows, its
 effects were the mean outcomes of the treated rows

---
 ylearn/estimator_model/_tree/tree_criterion.pyx | 3 ++-
 ylearn/estimator_model/causal_tree.py           | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/_tree/tree_criterion.pyx b/ylearn/estimator_model/_tree/tree_criterion.pyx
index ab5964b..6935c09 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pyx
+++ b/ylearn/estimator_model/_tree/tree_criterion.pyx
@@ -161,7 +161,8 @@ cdef class HonestCMSE(RegressionCriterion):
                 y0_sq_sum_total += y_ik * y_ik
                 n0_total +=1
             #
-            weighted_n_node_samples += w
+            # the sign of w only tells the group of the sample
+            weighted_n_node_samples += 1.0
             #
 
         self.nt_total = nt_total
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 62a708c..d6017ec 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -439,7 +439,7 @@ class CausalTree(BaseEstModel):
         for i, leaf_node in enumerate(leaf_collection):
             ar = leafs == leaf_node
             y_sub, x_sub = y[ar], x[ar]
-            y_sub_tr, y_sub_ctrl = y_sub[x_sub == 1], y_sub[x_sub == 0]
+            y_sub_tr, y_sub_ctrl = y_sub[x_sub > 0], y_sub[x_sub < 0]
             if y_sub_tr.size == 0 or y_sub_ctrl.size == 0:
                 pass
             else:
@@ -758,7 +758,9 @@ class CausalTree(BaseEstModel):
         self._wv = wv
         y = y[label]
         wv = wv[label]
-        sample_weight = _tr[label].astype(int)
+        # the sign of the weight tells the criterion the group of a row, a zero
+        # weight would make the splitter drop the row
+        sample_weight = np.where(_tr[label], 1.0, -1.0)
 
         check_scalar(
             self.ccp_alpha,
-- 
2.43.0


From 06ea097b61dfbab24745b5b02917790b7d5a87b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 067/150] fix: CausalTree made leaves without treated or
 control rows, whose effect was the mean outcome of one group

---
 ylearn/estimator_model/_tree/tree_criterion.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_tree/tree_criterion.pyx b/ylearn/estimator_model/_tree/tree_criterion.pyx
index 6935c09..599e4aa 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pyx
+++ b/ylearn/estimator_model/_tree/tree_criterion.pyx
@@ -421,8 +421,13 @@ cdef class HonestCMSE(RegressionCriterion):
     cdef double proxy_impurity_improvement(self) nogil:
         cdef double impurity_left
         cdef double impurity_right
-        self.children_impurity(&impurity_left, &impurity_right)
 
+        # there is no effect to estimate without treated or control samples
+        if (self.nt_left == 0 or self.n0_left == 0 or
+                self.nt_right == 0 or self.n0_right == 0):
+            return -INFINITY
+
+        self.children_impurity(&impurity_left, &impurity_right)
 
         return (- (self.nt_right + self.n0_right) * impurity_right
                 - (self.nt_left + self.n0_left) * impurity_left)
-- 
2.43.0


From 22f875dbd1ac28d70b84761452d3f9dcdbb42687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 068/150] fix: min_impurity_decrease of CausalTree had no
 effect because the impurity decrease was off by 1e5 over the node size

---
 ylearn/estimator_model/_tree/tree_criterion.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_tree/tree_criterion.pyx b/ylearn/estimator_model/_tree/tree_criterion.pyx
index 599e4aa..3112eef 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pyx
+++ b/ylearn/estimator_model/_tree/tree_criterion.pyx
@@ -435,7 +435,8 @@ cdef class HonestCMSE(RegressionCriterion):
     cdef double impurity_improvement(self, double impurity_parent,
                                      double impurity_left,
                                      double impurity_right) nogil:
-        cdef DOUBLE_t n_total = self.nt_total + self.n0_total + eps
+        # alpha must cancel out exactly
+        cdef DOUBLE_t n_total = self.nt_total + self.n0_total
         return (impurity_parent - ((self.nt_right + self.n0_right) / n_total * impurity_right)
                                 - ((self.nt_left + self.n0_left) / n_total * impurity_left))
 
-- 
2.43.0


From b0bcfeb15ef32be5ea28445c0240457fec99086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 069/150] fix: feature importances of GRForest were negative or
 beyond 1, as they took the gain of a split for an impurity

---
 .../_generalized_forest/tree/_grf_tree.py            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py b/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py
index 82b3eb0..adbf7ee 100644
--- a/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py
+++ b/ylearn/estimator_model/_generalized_forest/tree/_grf_tree.py
@@ -450,7 +450,17 @@ class GrfTree(BaseEstModel):
             (Gini importance).
         """
         assert self._is_fitted, "The model is not fitted yet"
-        return self.tree_.compute_feature_importances()
+        # the impurity of a node here is its contribution to the criterion of the
+        # split of its parent, hence a split gains what both of the children have
+        tree = self.tree_
+        left, right = tree.children_left, tree.children_right
+        split = np.flatnonzero(left != -1)
+        gains = tree.impurity[left[split]] + tree.impurity[right[split]]
+        importances = np.bincount(
+            tree.feature[split], weights=gains, minlength=tree.n_features
+        )
+        total = importances.sum()
+        return importances / total if total > 0 else importances
 
     def decision_path(self, w, v):
         """Return the decision path in the tree.
-- 
2.43.0


From 1071a90e14b7547f43eea68e65c6d1044d83bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:07 +0000
Subject: [PATCH 070/150] fix: CausalForest took a control given as an array
 for the position of the level instead of its label

---
 ylearn/estimator_model/causal_forest.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 69d3402..b007cd4 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -198,17 +198,15 @@ class CausalForest(DoubleML):
         x_prime = x - x_hat
         if self.is_discrete_treatment:
             if hasattr(self, "control") and self.control is not None:
-                ctrl = self.control
-                if not isinstance(ctrl, np.ndarray):
-                    self._is_fitted = True  # TODO: this line is for temp useage
-                    ctrl = get_tr_ctrl(
-                        ctrl,
-                        self.comp_transormer,
-                        treat=False,
-                        one_hot=False,
-                        discrete_treat=True,
-                    )
-                    self._is_fitted = False
+                self._is_fitted = True  # TODO: this line is for temp useage
+                ctrl = get_tr_ctrl(
+                    self.control,
+                    self.comp_transormer,
+                    treat=False,
+                    one_hot=False,
+                    discrete_treat=True,
+                )
+                self._is_fitted = False
             else:
                 ctrl = 0
 
-- 
2.43.0


From cf11fad16f5e0fe3ce3ec1a4fd72f99cf00aaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 071/150] fix: predict_ind of a PolicyTree with the effects of
 a single treatment raised AxisError

---
 ylearn/policy/policy_model.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index cee3c0b..0595950 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -552,10 +552,7 @@ class PolicyTree:
 
         if self.criterion == "policy_reg":
             # TODO: consider more about continuous treatment
-            if self.n_outputs_ == 1:
-                return proba[:, 0]
-            else:
-                return proba[:, :, 0]
+            return proba.reshape(n_samples, self.n_outputs_)
         else:
             raise ValueError(f"The type of criterion {self.criterion} is not supported")
 
-- 
2.43.0


From 10ddf0fc6d2b0f44e9486ec584ad67ad49c844e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 072/150] fix: predict_opt_effect of PolicyTree gave the
 effects of all the treatments instead of the effect of the optimal one

---
 ylearn/effect_interpreter/policy_interpreter.py | 2 +-
 ylearn/policy/policy_model.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index ceec2cf..a96c5f2 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -256,7 +256,7 @@ class PolicyInterpreter:
 
         v = self._tree_model._check_features(v=None, data=data)
 
-        policy_pred = self._tree_model.predict_opt_effect(data=data)
+        policy_pred = self._tree_model._prepare4est(data=data)
         policy_value = policy_pred.max(1)
         policy_ind = policy_pred.argmax(1)
         node_indicator = self._tree_model.decision_path(v=v)
diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index 0595950..ec56295 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -538,7 +538,7 @@ class PolicyTree:
         ndarray or float, optional
             The estimated causal effect with the optimal treatment value.
         """
-        pred = self._prepare4est(data)
+        pred = self._prepare4est(data).max(1)
 
         return pred
 
-- 
2.43.0


From 14c60862e5ec2d623353a3da1370cf8fee1eb88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 073/150] fix: PolicyTree with max_leaf_nodes ignored the
 sample_weight

---
 ylearn/sklearn_ex/cloned/tree/_tree.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/cloned/tree/_tree.pyx b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
index 6e405ca..fd039dd 100644
--- a/ylearn/sklearn_ex/cloned/tree/_tree.pyx
+++ b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
@@ -361,7 +361,7 @@ cdef class BestFirstTreeBuilder(TreeBuilder):
 
         # init splitter
         cdef Splitter splitter = self.splitter
-        self._init_splitter(splitter,X,y)
+        self._init_splitter(splitter, X, y, sample_weight)
 
         # build tree
         self._build_tree(tree,splitter)
-- 
2.43.0


From c6cbae0c61c5d10ca10e668d02de24a15431506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 074/150] fix: a PolicyTree fitted again still transformed the
 covariates as the estimator of the earlier fit

---
 ylearn/policy/policy_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index ec56295..c030157 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -274,6 +274,7 @@ class PolicyTree:
         """
         ce, v = convert2array(data, effect, covariate)
         self.covariate = covariate
+        self.cov_transformer = None
 
         if effect_array is not None:
             ce = effect_array
@@ -595,7 +596,7 @@ class PolicyTree:
             assert isinstance(data, pandas.DataFrame)
 
             v = convert2array(data, self.covariate)[0]
-            if hasattr(self, "cov_transformer"):
+            if self.cov_transformer is not None:
                 v = self.cov_transformer.transform(v)
 
             assert v.shape[1] == self.tree_.n_features
-- 
2.43.0


From f4b1a588e8608da23ba7d5dd7144d4ca099660cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 075/150] fix: CEInterpreter.predict and decide took all the
 columns of the data for the covariates

---
 ylearn/effect_interpreter/ce_interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/effect_interpreter/ce_interpreter.py b/ylearn/effect_interpreter/ce_interpreter.py
index b7043f6..c27e993 100644
--- a/ylearn/effect_interpreter/ce_interpreter.py
+++ b/ylearn/effect_interpreter/ce_interpreter.py
@@ -275,6 +275,8 @@ class CEInterpreter:
         return self.predict(data)
 
     def predict(self, data):
+        if isinstance(data, pd.DataFrame):
+            data = convert2array(data, self.covariate)[0]
         data_t = self._transform_data(data)
         return self._tree_model.predict(data_t)
 
-- 
2.43.0


From ca651d71a2a970394e7d9829878d7a2abd36bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 076/150] fix: feature importances were not aligned with the
 input columns when the preprocessor reordered them

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index a1a9c00..cd36f4d 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -179,7 +179,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         columns = X.columns.to_list()
         selected = [columns[i] for i in selected]
 
-        if len(columns) != len(columns_in):
+        if columns != columns_in:
             importances = [0.0 if c not in columns else importances[columns.index(c)] for c in columns_in]
             importances = np.array(importances)
 
-- 
2.43.0


From b0b3bd53816c08e538a1676fb5f2023e187f0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 077/150] fix: SafeOrdinalEncoder.inverse_transform failed on
 the float codes its transform returns

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index cd36f4d..ccb01d5 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -92,7 +92,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
                 default_value = None
                 dtype = object
             unseen = len(categories)
-            vf = np.vectorize(lambda x: categories[x] if unseen > x >= 0 else default_value,
+            vf = np.vectorize(lambda x: categories[int(x)] if unseen > x >= 0 else default_value,
                               otypes=[dtype])
             return vf
 
-- 
2.43.0


From d3fcbcaa1914a13d85069c05b067b1807a51d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 078/150] fix: SafeOrdinalEncoder lost the row labels of data
 frames

---
 ylearn/sklearn_ex/_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index ccb01d5..8bb2f58 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -71,7 +71,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data, dtype=self.dtype)
+            result = pd.DataFrame(data, index=X.index, dtype=self.dtype)
         else:
             result = np.stack(result, axis=1)
             if self.dtype != result.dtype:
@@ -103,7 +103,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data)
+            result = pd.DataFrame(data, index=X.index)
         else:
             result = np.stack(result, axis=1)
 
-- 
2.43.0


From 179244983a429195f8da2d71f649d4c4c9cba4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 079/150] fix: infer_task_type(dropna=True) counted the NaN of
 a float outcome as a label

---
 ylearn/utils/_common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index d27fd50..8848c34 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -190,10 +190,7 @@ def infer_task_type(y, *, dropna=True, excludes=None, regression_exponent=0.382)
 
     uniques = unique(y)
     if dropna:
-        if uniques.__contains__(np.nan):
-            uniques.remove(np.nan)
-        if uniques.__contains__(None):
-            uniques.remove(None)
+        uniques = {u for u in uniques if not pd.isnull(u)}
     if excludes is not None and len(excludes) > 0:
         uniques -= set(excludes)
     n_unique = len(uniques)
-- 
2.43.0


From 950395ad525c093aa334890775e9258336e5f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 080/150] fix: simulate_nonlinear_sem raised for any
 noise_scale, documented as an array

---
 ylearn/exp_dataset/gen.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ylearn/exp_dataset/gen.py b/ylearn/exp_dataset/gen.py
index f690e58..e5ecc4c 100644
--- a/ylearn/exp_dataset/gen.py
+++ b/ylearn/exp_dataset/gen.py
@@ -194,7 +194,14 @@ def simulate_nonlinear_sem(B, n, sem_type, noise_scale=None):
         return x
 
     d = B.shape[0]
-    scale_vec = noise_scale if noise_scale else np.ones(d)
+    if noise_scale is None:
+        scale_vec = np.ones(d)
+    elif np.isscalar(noise_scale):
+        scale_vec = noise_scale * np.ones(d)
+    else:
+        if len(noise_scale) != d:
+            raise ValueError('noise scale must be a scalar or has length d')
+        scale_vec = noise_scale
     X = np.zeros([n, d])
     G = ig.Graph.Adjacency(B.tolist())
     ordered_vertices = G.topological_sorting()
-- 
2.43.0


From 282794d507223cbd6f2855f903a14b5a6821a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 081/150] fix: Why ignored the asked treat and control with a
 customized meta learner

---
 ylearn/api/_why.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 896ca40..4e4933d 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -12,6 +12,8 @@ from ylearn import sklearn_ex as skex
 from ylearn import uplift as L
 from ylearn.causal_model import CausalGraph
 from ylearn.estimator_model import ESTIMATOR_FACTORIES, BaseEstModel
+from ylearn.estimator_model import SLearner, TLearner, XLearner, DoublyRobust
+from ylearn.estimator_model._permuted import PermutedLearner
 from ylearn.utils import logging, view_pydot, to_repr, drop_none, set_random_state
 from . import utils
 from ._identifier import Identifier, DefaultIdentifier
@@ -444,7 +446,11 @@ class Why:
             assert estimator == 'auto' or estimator in ESTIMATOR_FACTORIES.keys()
 
         if isinstance(estimator, BaseEstModel):
-            return deepcopy(estimator)
+            estimator = deepcopy(estimator)
+            if isinstance(estimator, (SLearner, TLearner, XLearner, DoublyRobust)):
+                # these learners are fitted for one treat-control pair only
+                estimator = PermutedLearner(estimator)
+            return estimator
 
         options = self.estimator_options if self.estimator_options is not None else {}
         if estimator == 'auto':
-- 
2.43.0


From 7be2a6a6f44eb7ada37223f5b836e49288626193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 082/150] fix: Why.causal_effect took a continuous treatment
 given as str letter by letter

---
 ylearn/api/_why.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 4e4933d..2902e7d 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -722,6 +722,8 @@ class Why:
 
         if treatment is None:
             treatment = self.treatment_
+        else:
+            treatment = utils.to_list(treatment, 'treatment')
 
         test_data_preprocessed = self._preprocess(test_data)
         treat = self._safe_treat_control(treatment, treat, 'treat')
-- 
2.43.0


From bc52e8290da58fa086a16648ace5ede57cdaaab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 083/150] fix: Why.individual_causal_effect lost the row labels
 for continuous treatments

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 2902e7d..509a3fb 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -845,7 +845,7 @@ class Why:
             treat_i = test_data_preprocessed[x]
             control_i = control[i] if control is not None else None
             effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i)
-            s = pd.Series(effect.ravel(), name=x)
+            s = pd.Series(effect.ravel(), name=x, index=test_data.index)
             dfs.append(s)
         return pd.concat(dfs, axis=1)
 
-- 
2.43.0


From d6941156c99ad977ce209f3baf718fdb01338b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 084/150] fix: Why.whatif with fn_cost failed for discrete
 treatments

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 509a3fb..a4839fc 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -902,7 +902,7 @@ class Why:
                 t_encoded, c_encoded = xe.transform([t, c]).tolist()
                 eff = estimator.estimate(data_rows, treat=t_encoded, control=c_encoded)
             if self.fn_cost is not None:
-                eff = utils.cost_effect(self.fn_cost, test_data, eff, self.effect_name)
+                eff = utils.cost_effect(self.fn_cost, test_data.loc[tc_rows.index], eff, self.effect_name)
             effect.append(pd.DataFrame(dict(e=eff.ravel()), index=tc_rows.index))
         effect = pd.concat(effect, axis=0)
         assert len(effect) == len(df)
-- 
2.43.0


From e234acca440aa0198c94e9ea29b5d0833c007c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 085/150] fix: Why decoded target_outcome, which is a label of
 the user, instead of encoding it

---
 ylearn/api/_why.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index a4839fc..618d1e3 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -524,9 +524,9 @@ class Why:
         assert self._is_fitted
         return utils.safe_treat_control_list(treatment, t_or_c, name)
 
-    def _inverse_transform_outcome(self, v):
+    def _transform_outcome(self, v):
         if self.y_encoder_ is not None and v is not None:
-            return self.y_encoder_.inverse_transform([v])[0]
+            return self.y_encoder_.transform([v]).tolist()[0]
         else:
             return v
 
@@ -809,7 +809,7 @@ class Why:
         if control is None:
             control = [self.x_encoders_[x].classes_.tolist()[0] for x in self.treatment_]
         if target_outcome is not None:
-            target_outcome = self._inverse_transform_outcome(target_outcome)
+            target_outcome = self._transform_outcome(target_outcome)
 
         dfs = []
         for ri in test_data_preprocessed.index:
@@ -1038,7 +1038,7 @@ class Why:
             options = drop_none(control=control, )
             if target_outcome is not None \
                     and 'target_outcome' in inspect.signature(estimator.effect_nji).parameters.keys():
-                options['target_outcome'] = self._inverse_transform_outcome(target_outcome)
+                options['target_outcome'] = self._transform_outcome(target_outcome)
             effect = estimator.effect_nji(preprocessed_data, **options)
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
@@ -1305,7 +1305,7 @@ class Why:
         test_data_preprocessed = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(treatment, treat, 'treat')
         control = self._safe_treat_control(treatment, control, 'control')
-        target_outcome = self._inverse_transform_outcome(target_outcome)
+        target_outcome = self._transform_outcome(target_outcome)
 
         encoders = [self.x_encoders_[x] for x in treatment]
         estimator = self._get_estimator(treatment)
-- 
2.43.0


From 74fbe5389c09a702bed095fb929e928fdebb81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 086/150] fix: Why took itself as fitted before fit and did not
 raise for an invalid target_outcome

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 618d1e3..1d2bc04 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -170,7 +170,7 @@ class Why:
         self.random_state = random_state
 
         # fitted
-        self._is_fitted = False,
+        self._is_fitted = False
         self.feature_names_in_ = None
         self.treatment_ = None
         self.outcome_ = None
@@ -1048,7 +1048,7 @@ class Why:
                 if target_outcome is not None:
                     nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
                     if len(nz) == 0:
-                        assert ValueError(f'Invalid target_outcome: "{target_outcome}"')
+                        raise ValueError(f'Invalid target_outcome: "{target_outcome}"')
                     effect = effect[:, nz[0]:nz[0] + 1, :]
                 else:
                     effect = effect[:, -1:, :]
-- 
2.43.0


From 751979f20eb012dcd7470d9025346f91cea765e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 087/150] fix: Why.uplift_model compared the effects on
 target_outcome with the codes of all classes

---
 ylearn/api/_why.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 1d2bc04..3543c8f 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1320,14 +1320,18 @@ class Why:
         t_encoded, c_encoded = utils.transform_treat_control(encoders, treat=treat, control=control)
         data_tc = utils.select_by_treat_control(test_data_preprocessed, treatment, t_encoded, c_encoded)
 
+        y = data_tc[self.outcome_]
         if self.discrete_outcome:
+            if target_outcome is None:
+                target_outcome = len(self.y_encoder_.classes_) - 1
+            y = (y == target_outcome).astype(int)
             effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded, target_outcome=target_outcome)
         else:
             effect = estimator.estimate(data_tc, treat=t_encoded, control=c_encoded)
         df_lift = pd.DataFrame({
             name: effect.ravel(),
             '_x_': utils.encode_treat_control(data_tc, treatment=treatment, treat=t_encoded, control=c_encoded),
-            '_y_': data_tc[self.outcome_]
+            '_y_': y
         }, index=data_tc.index)
         um = L.UpliftModel()
         um.fit(df_lift, treatment='_x_', outcome='_y_', random=random)
-- 
2.43.0


From e2e099e48336464d8749f8bb719fbbe76b0bf4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 088/150] fix: Why.score dropped target_outcome

---
 ylearn/api/_why.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 3543c8f..2f7f2d1 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -957,7 +957,8 @@ class Why:
         assert test_data is not None
 
         if scorer in ['auuc', 'qini']:
-            return self._score_auuc_qini(test_data, treat=treat, control=control, scorer=scorer)
+            return self._score_auuc_qini(test_data, treat=treat, control=control, target_outcome=target_outcome,
+                                         scorer=scorer)
         else:
             return self._score_rloss(test_data, treat=treat, control=control)
 
-- 
2.43.0


From ecbe25cf4f9723aca5c414a3f61eccd6e93786ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 089/150] fix: Why removed the treatments from the lists of the
 caller

---
 ylearn/api/_why.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 2f7f2d1..932250a 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -401,9 +401,9 @@ class Why:
         covariate = utils.to_list(covariate, name='covariate')
         instrument = utils.to_list(instrument, name='instrument')
 
-        utils.safe_remove(adjustment, treatment)
-        utils.safe_remove(covariate, treatment)
-        utils.safe_remove(instrument, treatment)
+        adjustment = utils.safe_remove(adjustment, treatment, copy=True)
+        covariate = utils.safe_remove(covariate, treatment, copy=True)
+        instrument = utils.safe_remove(instrument, treatment, copy=True)
 
         if all(map(utils.is_empty, (adjustment, covariate, instrument))):
             if identifier is None:
-- 
2.43.0


From f290de0beb0bc219932b3564b2f6ea70b009dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 090/150] fix: Why.causal_graph reversed every edge and missed
 the effect of the treatments

---
 ylearn/api/_why.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 932250a..1cf7dac 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -546,20 +546,23 @@ class Why:
             from ylearn.causal_discovery import BaseDiscovery
             m = BaseDiscovery.matrix2dict(causation, threshold=threshold)
         else:
-            m = {}
+            m = {}  # effect: causes
             fmt = partial(utils.format, line_limit=1, line_width=20)
             label_y = f'Outcome({self.outcome_})'
             label_x = f'Treatments({fmt(self.treatment_)})'
 
             if self.adjustment_ is not None and len(self.adjustment_) > 0:
                 label_w = f'Adjustments({fmt(self.adjustment_)})'
-                m[label_w] = [label_x, label_y]
+                m.setdefault(label_x, []).append(label_w)
+                m.setdefault(label_y, []).append(label_w)
             if self.covariate_ is not None and len(self.covariate_) > 0:
                 label_v = f'Covariates({fmt(self.covariate_)})'
-                m[label_v] = [label_x, label_y]
+                m.setdefault(label_x, []).append(label_v)
+                m.setdefault(label_y, []).append(label_v)
             if self.instrument_ is not None and len(self.instrument_) > 0:
                 label_z = f'Instruments({fmt(self.instrument_)})'
-                m[label_z] = [label_x, ]
+                m.setdefault(label_x, []).append(label_z)
+            m.setdefault(label_y, []).append(label_x)
 
         cg = CausalGraph(m)
         return cg
-- 
2.43.0


From cc87f38610f45247667953e5544726d36d67d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 091/150] fix: Why.causal_graph added an edge for every
 indirect cause of the discovered graph

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 1cf7dac..834b869 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -544,7 +544,7 @@ class Why:
         if causation is not None:
             threshold = causation.values.diagonal().max()
             from ylearn.causal_discovery import BaseDiscovery
-            m = BaseDiscovery.matrix2dict(causation, threshold=threshold)
+            m = BaseDiscovery.matrix2dict(causation, depth=1, threshold=threshold)
         else:
             m = {}  # effect: causes
             fmt = partial(utils.format, line_limit=1, line_width=20)
-- 
2.43.0


From 2b77800d17be5ea5d0a89f24e3f895d444518cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 092/150] fix: identifiers missed the causes of negative weight

---
 ylearn/api/_identifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index ea4256c..a9dce55 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -205,7 +205,7 @@ class IdentifierWithDiscovery(DefaultIdentifier):
 
         n = len(causal_matrix)
         names = causal_matrix.columns.tolist()
-        matrix_values = np.where(causal_matrix.values > 0, 1, 0)
+        matrix_values = np.where(causal_matrix.values != 0, 1, 0)
         g = nx.from_numpy_array(matrix_values, create_using=nx.DiGraph).reverse()
 
         yi = names.index(outcome)
-- 
2.43.0


From 80d66710481ed883f10f8676bf442c3bd1589729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 093/150] fix: straight identification took the effects of the
 outcome for covariates

---
 ylearn/api/_identifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index a9dce55..0cf64b9 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -187,9 +187,9 @@ class IdentifierWithDiscovery(DefaultIdentifier):
         if isinstance(treatment, str):
             treatment = [treatment, ]
         xy = treatment + [outcome]
-        var_x = [k for k, v in m0.items() if
-                 any(map(lambda t: t in v and k not in xy, treatment))]
-        var_y = [k for k, v in m0.items() if outcome in v and k not in xy]
+        var_x = [k for k in m0.keys() if
+                 any(map(lambda t: k in m0[t] and k not in xy, treatment))]
+        var_y = [k for k in m0.keys() if k in m0[outcome] and k not in xy]
 
         instrument = [c for c in var_x if c in set(var_x).difference(set(var_y)) and c not in xy]
         covariate = [c for c in var_y if c not in instrument and c not in xy]
-- 
2.43.0


From 046a59f164ea5f8fac3110729ab0f81df15cdb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 094/150] fix: identifiers searched a causal model with an edge
 for every indirect cause

---
 ylearn/api/_identifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index 0cf64b9..f8dda76 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -138,7 +138,7 @@ class IdentifierWithDiscovery(DefaultIdentifier):
             method = ('backdoor', 'simple')
 
         from ylearn.causal_discovery import BaseDiscovery
-        causal_dict = BaseDiscovery.matrix2dict(causal_matrix)
+        causal_dict = BaseDiscovery.matrix2dict(causal_matrix, depth=1)
         cg = CausalGraph(causal_dict)
         cm = CausalModel(cg)
         try:
-- 
2.43.0


From 5f40d87ce2aa94bb84404fe015fb3d3291546105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 095/150] fix: Why gave covariates the values of other columns
 when the preprocessor reordered them

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 834b869..c14604c 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -282,7 +282,7 @@ class Why:
         assert len(columns) > 0
         data_t = preprocessor.fit_transform(data[columns], y)
         assert isinstance(data_t, pd.DataFrame) and set(data_t.columns.tolist()) == set(columns)
-        data[columns] = data_t
+        data[columns] = data_t[columns]
 
         # fit estimator
         estimator_keys = treatment.copy()
@@ -504,7 +504,7 @@ class Why:
             if self.preprocessor_ is not None:
                 var_columns = utils.join_list(self.adjustment_, self.covariate_, self.instrument_)
                 assert len(var_columns) > 0
-                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])
+                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])[var_columns]
 
             if encode_outcome and self.y_encoder_ is not None and self.outcome_ in columns:
                 test_data[self.outcome_] = self.y_encoder_.transform(test_data[self.outcome_])
-- 
2.43.0


From 5d66578c0d7d229fd665053644dee66fd62ac53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 096/150] fix: one treatment more than treatment_count_limit
 was identified

---
 ylearn/api/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/utils.py b/ylearn/api/utils.py
index 58477b1..df9712e 100644
--- a/ylearn/api/utils.py
+++ b/ylearn/api/utils.py
@@ -67,11 +67,11 @@ def align_task_to_first(data, columns, count_limit):
     selected = columns[:1]
     discrete = is_discrete(data[selected[0]])
     for x in columns[1:]:
+        if len(selected) >= count_limit:
+            break
         x_discrete = is_discrete(data[x])
         if x_discrete is discrete:
             selected.append(x)
-            if len(selected) >= count_limit:
-                break
 
     return selected
 
-- 
2.43.0


From 3fb9d78c52822cd50db7ed6f899fbc538ad3a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 097/150] fix: identifiers failed with the backdoor methods
 which return several sets

---
 ylearn/api/_identifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index f8dda76..19a0bfb 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -160,7 +160,9 @@ class IdentifierWithDiscovery(DefaultIdentifier):
             instrument = []
 
         ids = cm.identify(treatment, outcome, identify_method=method)
-        covariate = list(set(ids['backdoor'][0]))
+        covariate = list(ids['backdoor'][0])
+        if len(covariate) > 0 and not isinstance(covariate[0], str):
+            covariate = covariate[0]  # the first one of the backdoor sets
         covariate = [c for c in covariate if c != outcome and c not in treatment]
         if not is_empty(instrument):
             covariate = [c for c in covariate if c not in instrument]
-- 
2.43.0


From eddb824152f1e1ee06faee5fb426244be130c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 098/150] fix: DeepIV applied treat to one row only, ignored
 control, and effect_nji always raised

---
 ylearn/estimator_model/deepiv.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 1f51c01..decf96a 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -804,22 +804,23 @@ class DeepIV(BaseEstModel):
             )[0]
 
         n = w.shape[0]
-        ones = torch.eye(n, self._x_d)
-
-        y_nji = torch.full((n, self._y_d, self._x_d))
 
         if self.is_discrete_treatment:
+            eye = torch.eye(self._x_d)
+            y_nji = torch.zeros((n, self._y_d, self._x_d), dtype=w.dtype)
+
             for treat in range(self._x_d):
                 treat_id = (torch.ones(n, ) * treat).int()
 
-                xt = ones.index_select(dim=0, index=treat_id)
+                xt = eye.index_select(dim=0, index=treat_id)
                 y_pred = self.y_net.predict(xt, w)
                 y_nji[:, :, treat] = y_pred.reshape(n, self._y_d)
 
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, self._x_d))
         else:
-            xt = ones * 1
-            x0 = ones * 0
+            y_nji = torch.zeros((n, self._y_d, 2), dtype=w.dtype)
+            xt = torch.ones(n, self._x_d, dtype=w.dtype)
+            x0 = torch.zeros(n, self._x_d, dtype=w.dtype)
             y_nji[:, :, 0] = self.y_net.predict(x0, w)
             y_nji[:, :, 1] = self.y_net.predict(xt, w)
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, 2))
@@ -850,18 +851,20 @@ class DeepIV(BaseEstModel):
                 convert2array(data, self.adjustment)[0]
             )[0]
         n = w.shape[0]
-        ones = torch.eye(n, self._x_d)
 
         if self.is_discrete_treatment:
             # build the one_hot vector for treatment vector
+            eye = torch.eye(self._x_d)
             treat_id = (torch.ones(n, ) * treat).int()
+            control_id = (torch.ones(n, ) * control).int()
 
             # build treatment vector xt and control vector x0
-            xt = ones.index_select(dim=0, index=treat_id)
-            x0 = ones.index_select(dim=0, index=torch.zeros(n, ).int())
+            xt = eye.index_select(dim=0, index=treat_id)
+            x0 = eye.index_select(dim=0, index=control_id)
 
             return (self.y_net.predict(xt, w), self.y_net.predict(x0, w))
         else:
+            ones = torch.ones(n, self._x_d, dtype=w.dtype)
             xt = ones * treat
             x0 = ones * control
             xt.requires_grad = True
-- 
2.43.0


From dad79e5704cbd68a2a7cb4270493296144e350d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 099/150] fix: DeepIV with a given y_net raised NameError

---
 ylearn/estimator_model/deepiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index decf96a..4497d19 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -961,6 +961,6 @@ class DeepIV(BaseEstModel):
 
         if y_model is None:
             assert any(args), 'Need parameters to define an outcome net.'
-            y_net = Net(*args, **kwargs)
+            y_model = Net(*args, **kwargs)
 
-        return NetWrapper(y_net, is_y_net=True)
+        return NetWrapper(y_model, is_y_net=True)
-- 
2.43.0


From 35d91338656a2842ec63d7686a6625d8735295c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 100/150] fix: DeepIV.estimate(marginal_effect=True) always
 raised

---
 ylearn/estimator_model/deepiv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 4497d19..4b85098 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -872,7 +872,12 @@ class DeepIV(BaseEstModel):
             yt = self.y_net.predict(xt, w)
 
             if marginal_effect:
-                return (xt.grad.detach(), )
+                grads = [
+                    torch.autograd.grad(yt[:, i].sum(), xt, retain_graph=True)[0]
+                    for i in range(self._y_d)
+                ]
+                grad = grads[0] if self._y_d == 1 else torch.stack(grads, dim=1)
+                return (grad, )
             else:
                 y0 = self.y_net.predict(x0, w)
                 return (yt, y0)
-- 
2.43.0


From 6f5f69a8563f5af82dafb3799b0c761d71e84f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 101/150] fix: DeepIV.estimate(quantity=None) returned the
 outcome under treat instead of the effect

---
 ylearn/estimator_model/deepiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 4b85098..6277f86 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -937,7 +937,7 @@ class DeepIV(BaseEstModel):
             return (yt - y0).mean(dim=0) if y0 is not None else yt.mean(dim=0)
         # elif quantity == 'Counterfactual prediction':
         else:
-            return yt
+            return yt - y0 if y0 is not None else yt
 
     def _gen_x_model(self, x_model, *args, **kwargs):
         hidden_d_list = kwargs.pop('hidden_d', [64, 128, 64])
-- 
2.43.0


From 10f67cbc148d0b0791eff07301de357b776f73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 102/150] fix: DeepIV without adjustment always raised

---
 ylearn/estimator_model/deepiv.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 6277f86..72cc3b0 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -744,6 +744,8 @@ class DeepIV(BaseEstModel):
             y = self.y_transformer.transform(y).toarray()
 
         y, x, w, z = convert2tensor(y, x, w, z)
+        if w is None:
+            w = z[:, -1:-1].to(y.dtype)
         self.w = w
         self._y_d, self._x_d, self._w_d, self._z_d = shapes(
             y, x, w, z, all_dim=False
@@ -796,12 +798,7 @@ class DeepIV(BaseEstModel):
         if not hasattr(self, 'x_net') or not hasattr(self, 'y_net'):
             raise Exception('The estimator is not fitted yet.')
 
-        if data is None:
-            w = self.w
-        else:
-            w = convert2tensor(
-                convert2array(data, self.adjustment)[0]
-            )[0]
+        w = self._get_w(data)
 
         n = w.shape[0]
 
@@ -829,6 +826,15 @@ class DeepIV(BaseEstModel):
 
         return y_nji
 
+    def _get_w(self, data=None):
+        if data is None:
+            return self.w
+
+        if self.adjustment is None:
+            return self.w.new_empty((len(data), 0))
+
+        return convert2tensor(convert2array(data, self.adjustment)[0])[0]
+
     def _prepare4est(
         self,
         data=None,
@@ -844,12 +850,7 @@ class DeepIV(BaseEstModel):
         treat = 1 if treat is None else treat
         control = 0 if control is None else control
 
-        if data is None:
-            w = self.w
-        else:
-            w = convert2tensor(
-                convert2array(data, self.adjustment)[0]
-            )[0]
+        w = self._get_w(data)
         n = w.shape[0]
 
         if self.is_discrete_treatment:
-- 
2.43.0


From 82daafb012aaddb62129b2ce431a314f0f18e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 103/150] fix: DeepIV.fit raised when only one of x_net_config
 and y_net_config was given

---
 ylearn/estimator_model/deepiv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 72cc3b0..b2eb358 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -714,8 +714,9 @@ class DeepIV(BaseEstModel):
                     instrument=instrument,
                     )
 
-        if x_net_config is None and y_net_config is None:
+        if x_net_config is None:
             x_net_config = kwargs
+        if y_net_config is None:
             y_net_config = kwargs
 
         y, x, z, w = convert2array(
-- 
2.43.0


From 2ee0766b5ff9962ef7ef12ffbab3acf30dfa6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 104/150] fix: DeepIV.fit raised without sample_n or
 approx_grad, and ignored all samples but the first

---
 ylearn/estimator_model/deepiv.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index b2eb358..77580d1 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -777,6 +777,7 @@ class DeepIV(BaseEstModel):
         self.x_net.fit(z, w, target=x, **x_net_config)
 
         # Step 2: generate new samples if calculating grad approximately
+        sample_n = 1 if sample_n is None else sample_n
         if approx_grad:
             x_sampled = self.x_net._sample(z, w, sample_n)
         else:
@@ -784,13 +785,15 @@ class DeepIV(BaseEstModel):
             x_sampled = x
 
         # Step 3: fit the final counterfactual prediction model
-        if self.is_discrete_treatment:
-            w_sampled = w
+        if self.is_discrete_treatment or not approx_grad:
+            w_sampled, y_sampled = w, y
         else:
-            w_sampled = w.repeat(sample_n, 1) if w is not None else None
+            # every sample of the treatment goes with the row it was drawn for
+            w_sampled = w.repeat(sample_n, 1)
+            y_sampled = y.repeat(sample_n, 1)
 
         # TODO: be careful here
-        self.y_net.fit(x_sampled, w_sampled, target=y, **y_net_config)
+        self.y_net.fit(x_sampled, w_sampled, target=y_sampled, **y_net_config)
 
         self._is_fitted = True
         return self
-- 
2.43.0


From 1855b12d459dcea5e4c6ee68d309b0ee2076e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 105/150] fix: DeepIV raised for a discrete instrument of a
 continuous treatment

---
 ylearn/estimator_model/deepiv.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 77580d1..b910eda 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -292,6 +292,9 @@ class MDNWrapper:
         tensor
             The probability density p(y|X) evaluated with the trained mdn.
         """
+        if self.is_discrete_input:
+            z = torch.argmax(z, dim=1)
+
         pi, mu, sigma = self.model(z, w)
         log_prob = self.mg(pi, mu, sigma).log_prob(target)
         return log_prob
@@ -300,6 +303,9 @@ class MDNWrapper:
         return torch.exp(self.predict_log_prob(z, w, target))
 
     def predict_cdf(self, z, w, target):
+        if self.is_discrete_input:
+            z = torch.argmax(z, dim=1)
+
         pi, mu, sigma = self.model(z, w)
         return self.mg(pi, mu, sigma).cdf(target)
 
@@ -321,6 +327,9 @@ class MDNWrapper:
         tensor
             Shape (b*sample_num, out_d).
         """
+        if self.is_discrete_input:
+            z = torch.argmax(z, dim=1)
+
         pi, mu, sigma = self.model(z, w)
         mg = self.mg(pi, mu, sigma)
         sampled = mg.sample((sample_n, ))
-- 
2.43.0


From 13e871786824538a23bfa7fcfdfb2387d8ea80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 106/150] fix: DeepIV of the factory raised for data with
 columns which are not float64

---
 ylearn/estimator_model/_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_factory.py b/ylearn/estimator_model/_factory.py
index df8717e..1322960 100644
--- a/ylearn/estimator_model/_factory.py
+++ b/ylearn/estimator_model/_factory.py
@@ -339,7 +339,7 @@ try:
             data_f64 = data.select_dtypes(include='float64')
             if len(data_f64.columns) > 0:
                 data = data.copy()
-                data[data.columns] = data_f64.astype('float32')
+                data[data_f64.columns] = data_f64.astype('float32')
             return data
 
 except ImportError as e:
-- 
2.43.0


From 90966a1eae0272bdddb0b3e468b7d0f6e45f4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 107/150] fix: the treatment network of DeepIV was trained on
 the likelihood of a single row instead of all

---
 ylearn/estimator_model/deepiv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index b910eda..14c120a 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -202,12 +202,12 @@ class MDNWrapper:
         Returns
         ----------
         tensor
-            The probability of taking value y in the probability distribution
-            modeled by the mdn. Has the same shape as y.
+            The mean negative log-likelihood of y in the probability
+            distribution modeled by the mdn.
         """
         mg = self.mg(pi, mu, sigma)
         loss = mg.log_prob(y)
-        return -torch.logsumexp(loss, dim=0)
+        return -loss.mean()
 
     def fit(
         self, z, w,
-- 
2.43.0


From 34ab9f24e6ad56f604e9c3e1a0210798b9cf3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 108/150] fix: MDNWrapper.predict_cdf always raised

---
 ylearn/estimator_model/deepiv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 14c120a..e440116 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -307,7 +307,9 @@ class MDNWrapper:
             z = torch.argmax(z, dim=1)
 
         pi, mu, sigma = self.model(z, w)
-        return self.mg(pi, mu, sigma).cdf(target)
+        # Independent has no cdf: product over the independent dimensions
+        comp = Normal(mu, sigma).cdf(target.unsqueeze(1)).prod(dim=-1)
+        return (pi * comp).sum(dim=-1)
 
     def _sample(self, z, w, sample_n):
         # TODO: remeber to call detach to depart from the calculatin graph
-- 
2.43.0


From 68df08b9c74cc52ba3449ad0a7a639e3dafaec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 109/150] fix: DeepIV raised for integer columns and for data
 of another precision than the networks

---
 ylearn/estimator_model/deepiv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index e440116..385a5d7 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -755,9 +755,9 @@ class DeepIV(BaseEstModel):
             self.y_transformer.fit(y)
             y = self.y_transformer.transform(y).toarray()
 
-        y, x, w, z = convert2tensor(y, x, w, z)
+        y, x, w, z = self._to_tensor(y, x, w, z)
         if w is None:
-            w = z[:, -1:-1].to(y.dtype)
+            w = z[:, -1:-1]
         self.w = w
         self._y_d, self._x_d, self._w_d, self._z_d = shapes(
             y, x, w, z, all_dim=False
@@ -848,7 +848,13 @@ class DeepIV(BaseEstModel):
         if self.adjustment is None:
             return self.w.new_empty((len(data), 0))
 
-        return convert2tensor(convert2array(data, self.adjustment)[0])[0]
+        return self._to_tensor(convert2array(data, self.adjustment)[0])[0]
+
+    @staticmethod
+    def _to_tensor(*arrays):
+        # the networks have parameters of the default dtype
+        return [t.to(torch.get_default_dtype()) if t is not None else None
+                for t in convert2tensor(*arrays)]
 
     def _prepare4est(
         self,
-- 
2.43.0


From 8ec97aeba6003e4704d760d0c0299daa85a00b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 110/150] fix: Why.individual_causal_effect gave rows of equal
 labels the effect of the first of them

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index c14604c..2bc5a0f 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -815,8 +815,8 @@ class Why:
             target_outcome = self._transform_outcome(target_outcome)
 
         dfs = []
-        for ri in test_data_preprocessed.index:
-            row_df = test_data_preprocessed.loc[ri:ri]
+        for i, ri in enumerate(test_data_preprocessed.index):
+            row_df = test_data_preprocessed.iloc[i:i + 1]
             for xi, x in enumerate(self.treatment_):
                 treat_i = row_df[x].tolist()[0]
                 control_i = control[xi]
-- 
2.43.0


From d6882fb05b8e1fc46dd084391979e8049640425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 111/150] fix: Why.whatif failed for discrete treatments of
 tables with duplicated row labels

---
 ylearn/api/_why.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 2bc5a0f..c58ff28 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -892,7 +892,8 @@ class Why:
         old_value = data[treatment]
         xe = self.x_encoders_[treatment]
 
-        df = pd.DataFrame(dict(c=old_value, t=new_value), index=old_value.index)
+        # rows go by position, labels of the index may be duplicated
+        df = pd.DataFrame(dict(c=old_value.values, t=getattr(new_value, 'values', new_value)))
         df['tc'] = df[['t', 'c']].apply(tuple, axis=1)
         tc_pairs = df['tc'].unique().tolist()
         effect = []
@@ -901,17 +902,17 @@ class Why:
             if t == c:
                 eff = np.zeros((len(tc_rows),))
             else:
-                data_rows = data.loc[tc_rows.index]
+                data_rows = data.iloc[tc_rows.index]
                 t_encoded, c_encoded = xe.transform([t, c]).tolist()
                 eff = estimator.estimate(data_rows, treat=t_encoded, control=c_encoded)
             if self.fn_cost is not None:
-                eff = utils.cost_effect(self.fn_cost, test_data.loc[tc_rows.index], eff, self.effect_name)
+                eff = utils.cost_effect(self.fn_cost, test_data.iloc[tc_rows.index], eff, self.effect_name)
             effect.append(pd.DataFrame(dict(e=eff.ravel()), index=tc_rows.index))
         effect = pd.concat(effect, axis=0)
         assert len(effect) == len(df)
         df['e'] = effect['e']  # align indices
 
-        y_new = y_old + df['e']
+        y_new = y_old + df['e'].values
         return y_new
 
     def _whatif_continuous(self, test_data, new_value, treatment, estimator):
-- 
2.43.0


From 475fcc7b561f20a44735d3e6804788ba02bd1f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 112/150] fix: get_blanket(return_self=False) took a node given
 as str letter by letter

---
 ylearn/bayesian/_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index ccef825..1b8b80b 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -134,7 +134,7 @@ class DiGraph(nx.DiGraph):
             blanket = self.get_upstream_blanket(nodes, topo_sorted=topo_sorted)
 
         if not return_self:
-            for n in nodes:
+            for n in to_list(nodes, name='nodes'):
                 if n in blanket:
                     blanket.remove(n)
         return blanket
-- 
2.43.0


From 6499bb6d36453cddf6b3d9d1969bb89bd3718f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 113/150] fix: the graph of a Bayesian network lost nodes
 without edges

---
 ylearn/bayesian/_dag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index 1b8b80b..8c24e0b 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -31,6 +31,7 @@ class DiGraph(nx.DiGraph):
                 raise ValueError(f'The given structure graph include {n_graph} subgraph.')
 
         super().__init__(graph_data)
+        self.add_nodes_from(g.nodes)
 
     @property
     def is_dag(self):
-- 
2.43.0


From d4f3aeca989dc318a7cd35b30ed230dc8fdc0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 114/150] fix: CategoryNodeState coded unknown values as
 another class

---
 ylearn/bayesian/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/bayesian/_base.py b/ylearn/bayesian/_base.py
index d6e9568..6b5623b 100644
--- a/ylearn/bayesian/_base.py
+++ b/ylearn/bayesian/_base.py
@@ -66,6 +66,8 @@ class CategoryNodeState(BState):
         classes to indices
         """
         r = np.searchsorted(self.classes, value)
+        if not np.all(np.take(self.classes, r, mode='clip') == value):
+            raise ValueError(f'unknown classes in {value}, known classes are {self.classes}.')
         return r
 
     def decode(self, value):
-- 
2.43.0


From b9bf84dd32da8a431de74f2bdc7de0e99d04ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 115/150] fix: Bayesian networks ignored random_state=0

---
 ylearn/bayesian/_network.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index c285c5d..4518688 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -254,7 +254,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         interventions = self.interventions
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if data is not None:
@@ -287,7 +287,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         model = self.model_
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         test_data = DataLoader(states).spread(data)
@@ -334,7 +334,7 @@ class BayesianNetwork(BObject):
                     num_samples=_DEFAULT_SAMPLE_NUMBER, proba=False, random_state=None):
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if self.infer_ is not None:
@@ -369,7 +369,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -455,7 +455,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -590,7 +590,7 @@ class SviBayesianNetwork(BayesianNetwork):
         nodes = self.graph.get_nodes()
         assert set(columns) >= set(nodes)
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         loader = DataLoader(data=data)
@@ -648,7 +648,7 @@ class SviBayesianNetwork(BayesianNetwork):
            blanket='markov', epochs=100, lr=0.005, ce_loss=False,
            inplace=True, random_state=None, verbose=1):
         assert isinstance(intervention, dict) and len(intervention) > 0
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         obj = self._get_stub(inplace)
-- 
2.43.0


From 01538b8ba05010d84790dd499824548f41cbdb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 116/150] fix: sampling under an intervention changed the
 fitted parameters of a Bayesian network

---
 ylearn/bayesian/_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 4518688..10c91de 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -265,7 +265,7 @@ class BayesianNetwork(BObject):
             data_t = DataLoader(states).spread(data)
         else:
             data_t = None
-        condition = self.fitted_params
+        condition = dict(self.fitted_params)
         interventions = self.interventions
         if len(interventions) > 0:
             states = self.state_
@@ -305,7 +305,7 @@ class BayesianNetwork(BObject):
         collector_creator = partial(self._create_collector, proba=proba)
         collectors = BCollectorList(outcome, collector_creator)
 
-        condition = self.fitted_params
+        condition = dict(self.fitted_params)
         interventions = self.interventions
         if len(interventions) > 0:
             interventions = {k: torch.tensor(states[k].encode(v)) for k, v in interventions.items()}
-- 
2.43.0


From 7114ee6f40d78bd55321ae90fecbd140892ad3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 117/150] fix: BayesianNetwork.estimate returned zero for
 tables with the outcome, and kept the treatment of the table for mediators

---
 ylearn/bayesian/_network.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 10c91de..30b64a8 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -483,28 +483,27 @@ class BayesianNetwork(BObject):
 
         logger.info(f'estimate with control={control} and treat={treat}, '
                     f'treatment={treatment}, outcome={outcome}.')
-        states = [self.state_[node] for node in treatment]
-        treat_kv = {t: s.encode(v) for t, s, v in zip(treatment, states, treat)}
-        control_kv = {t: s.encode(v) for t, s, v in zip(treatment, states, control)}
-
         model = self.model_
         nodes = self.graph.get_blanket(outcome, kind='upstream', topo_sorted=True)
         model = partial(model.model, nodes=nodes)
         model = poutine.condition(model, self.fitted_params)
 
+        # outcomes are to be drawn, and the children of treatment depend on its new value
+        data = data[[c for c in data.columns if c not in outcome]]
+        t_data, c_data = [data.assign(**dict(zip(treatment, v))) for v in (treat, control)]
+
         collector_creator = partial(self._create_collector, proba=True)
         t_collectors = BCollectorList(outcome, collector_creator)
         c_collectors = BCollectorList(outcome, collector_creator)
 
         # sampling
-        test_data = DataLoader(self.state_).spread(data)
+        t_data = DataLoader(self.state_).spread(t_data)
+        c_data = DataLoader(self.state_).spread(c_data)
         for i in range(num_samples):
-            with pyro.condition(data=treat_kv):
-                trace = poutine.trace(model).get_trace(test_data)
-                t_collectors(trace)
-            with pyro.condition(data=control_kv):
-                trace = poutine.trace(model).get_trace(test_data)
-                c_collectors(trace)
+            trace = poutine.trace(model).get_trace(t_data)
+            t_collectors(trace)
+            trace = poutine.trace(model).get_trace(c_data)
+            c_collectors(trace)
 
             if callable(verbose):
                 verbose(i)
-- 
2.43.0


From ab0ef87bf29f9fd690c867fbb9f3c1e4a8e3867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 118/150] fix: a Bayesian network could not be made from a
 CausalGraph, whose graph has edge keys

---
 ylearn/bayesian/_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index 8c24e0b..e6fd000 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -11,7 +11,7 @@ class DiGraph(nx.DiGraph):
     def __init__(self, graph, acyclic=None):
         if isinstance(graph, CausalGraph):
             g = graph.dag
-            graph_data = g.edges
+            graph_data = list(g.edges())
         elif isinstance(graph, nx.Graph):
             g = graph
             graph_data = graph.edges(data=True)
-- 
2.43.0


From f665bc2261f945e8b719994114cbae29f6e27892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 119/150] fix: identify('auto') with several treatments raised
 AssertionError for the frontdoor criterion

---
 ylearn/causal_model/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index b7f162b..89e5823 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -886,10 +886,11 @@ class CausalModel:
         def single(node):
             if isinstance(node, str):
                 return node
-            assert len(node) == 1, (
-                "Treatment and outcome should be sets which contain one"
-                " element for frontdoor adjustment."
-            )
+            if len(node) != 1:
+                raise IdentificationError(
+                    "Treatment and outcome should be sets which contain one"
+                    " element for frontdoor adjustment."
+                )
             return next(iter(node))
 
         treatment, outcome = single(treatment), single(outcome)
-- 
2.43.0


From 7b11296983b38f9f9e37beb533fd2ee6b33c286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 120/150] fix: Why chose a learner for discrete treatments when
 the outcome is discrete and the treatment continuous, fit always raised

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index c58ff28..29066ec 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -337,7 +337,7 @@ class Why:
         if instrument is not None and len(instrument) > 0:
             estimator = 'iv'
         # elif x_task in {const.TASK_BINARY, const.TASK_MULTICLASS}:
-        elif self.discrete_treatment or self.discrete_outcome:
+        elif self.discrete_treatment:
             estimator = 'tlearner'
         else:
             estimator = 'dml'
-- 
2.43.0


From d8b0776e9e686715b1978cb1fb09cdf52d8cd4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 121/150] fix: general_estimator made classifiers for
 regression when the task is inferred

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 8bb2f58..13850a1 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -388,7 +388,7 @@ def general_estimator(X, y=None, estimator=None, task=None, random_state=None, *
 
     if task is None:
         assert y is not None, '"y" or "task" is required.'
-        task = infer_task_type(y)
+        task, _ = infer_task_type(y)
     elif isinstance(task, bool):  # discrete or not
         task = const.TASK_MULTICLASS if task else const.TASK_REGRESSION
 
-- 
2.43.0


From 66e0bd45a9bb57a65a66b9cf8772c5e19000a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 122/150] fix: Why mixed the effects on all the classes of a
 discrete outcome when the treatment is continuous

---
 ylearn/api/_why.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 29066ec..5a3530b 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -530,6 +530,14 @@ class Why:
         else:
             return v
 
+    def _target_options(self, estimator, target_outcome):
+        # the effects on the probabilities of all classes are reduced to the asked one
+        if self.discrete_outcome and getattr(estimator, 'proba_output', False):
+            if target_outcome is None:
+                target_outcome = self.y_encoder_.classes_[-1]
+            return dict(target_outcome=self._transform_outcome(target_outcome))
+        return {}
+
     def causal_graph(self):
         """
         Get identified causal graph
@@ -745,7 +753,8 @@ class Why:
                 control_i = np.zeros_like(treat_i)
             elif treat_i is None and control_i is not None:
                 treat_i = np.ones_like(control_i)
-            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i, **kwargs)
+            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i,
+                                  **self._target_options(est, target_outcome), **kwargs)
             if self.fn_cost is not None:
                 effect = utils.cost_effect(self.fn_cost, test_data, effect, self.effect_name)
             if quantity == 'ATE':
@@ -847,7 +856,8 @@ class Why:
             est = self.estimators_[x]
             treat_i = test_data_preprocessed[x]
             control_i = control[i] if control is not None else None
-            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i)
+            effect = est.estimate(data=test_data_preprocessed, treat=treat_i, control=control_i,
+                                  **self._target_options(est, target_outcome))
             s = pd.Series(effect.ravel(), name=x, index=test_data.index)
             dfs.append(s)
         return pd.concat(dfs, axis=1)
-- 
2.43.0


From 4734029e4f16397564705381f403cf7a3cf01619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 123/150] fix: the doubly robust factory did not refuse
 continuous treatments when Why asks

---
 ylearn/estimator_model/_factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_factory.py b/ylearn/estimator_model/_factory.py
index 1322960..d46b23f 100644
--- a/ylearn/estimator_model/_factory.py
+++ b/ylearn/estimator_model/_factory.py
@@ -99,7 +99,9 @@ class DRFactory(BaseEstimatorFactory):
         from ylearn.estimator_model import PermutedDoublyRobust
 
         # assert adjustment is not None
-        assert x_task != const.TASK_REGRESSION, 'DoublyRobust support discrete treatment only.'
+        is_discrete_treatment = x_task if isinstance(x_task, bool) else x_task != const.TASK_REGRESSION
+
+        assert is_discrete_treatment, 'DoublyRobust support discrete treatment only.'
 
         return PermutedDoublyRobust(
             y_model=self._model(data, task=y_task, estimator=self.y_model, random_state=random_state),
-- 
2.43.0


From 39d6f5a40439164d7ebb2c89932d10904d172a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 124/150] fix: TLearner and XLearner ignored the given
 categories of a single treatment

---
 ylearn/estimator_model/meta_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index ce45a86..b026f27 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -939,7 +939,7 @@ class TLearner(BaseEstModel):
                 x[i] = self.label_dict[tuple(x_i)]
 
         if not hasattr(self, "oh_transformer"):
-            self.oh_transformer = ArrayOneHotEncoder()
+            self.oh_transformer = ArrayOneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
         x = self.oh_transformer.transform(x)
@@ -1449,7 +1449,7 @@ class XLearner(BaseEstModel):
                 x[i] = self.label_dict[tuple(x_i)]
 
         if not hasattr(self, "oh_transformer"):
-            self.oh_transformer = ArrayOneHotEncoder()
+            self.oh_transformer = ArrayOneHotEncoder(categories=categories)
             self.oh_transformer.fit(x)
 
         x = self.oh_transformer.transform(x)
-- 
2.43.0


From 1ff139dda3d86ed3032d9a7d24f2b6b86147775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:46 +0000
Subject: [PATCH 125/150] fix: give every double machine learning estimator
 transformers of its own

---
 ylearn/estimator_model/double_ml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index ac62f61..5340b40 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -309,8 +309,9 @@ class DoubleML(BaseEstModel):
         else:
             self.yx_model = clone(yx_model)
 
-        self.adjustment_transformer = adjustment_transformer
-        self.covariate_transformer = covariate_transformer
+        # as for the models, fitting should not touch the objects of the caller
+        self.adjustment_transformer = clone(adjustment_transformer, safe=False)
+        self.covariate_transformer = clone(covariate_transformer, safe=False)
 
         self.x_hat_dict = defaultdict(list)
         self.y_hat_dict = defaultdict(list)
-- 
2.43.0


From 880286f62c34dd5b2bc7baa9a112eb99c3552296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:09 +0000
Subject: [PATCH 126/150] fix: accept labels of treatments of different types,
 such as bool and int

---
 ylearn/estimator_model/utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index 603400c..5eca6a7 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -78,12 +78,10 @@ def get_tr_ctrl(tr_crtl, trans, *, treat=False, one_hot=False, discrete_treat=Tr
         return 1 if treat else 0
 
     if discrete_treat:
-        if not isinstance(tr_crtl, np.ndarray):
-            if not isinstance(tr_crtl, (list, tuple)):
-                tr_crtl = [tr_crtl]
-            # do not convert the labels of numeric treatments to str
-            mixed = len(set(isinstance(i, str) for i in tr_crtl)) > 1
-            tr_crtl = np.array(tr_crtl, dtype=object if mixed else None)
+        if not isinstance(tr_crtl, (list, tuple, np.ndarray)):
+            tr_crtl = [tr_crtl]
+        # keep every label as it is, the treatments may have different types
+        tr_crtl = np.array(list(tr_crtl), dtype=object)
 
         tr_crtl = trans(tr_crtl.reshape(1, -1)).reshape(1, -1)
 
@@ -102,9 +100,8 @@ def get_treat_control(treat_ctrl, trans, treat=False):
             ]
         assert len(treat_ctrl) == n_treat
 
-        # do not convert the labels of numeric treatments to str
-        mixed = len(set(isinstance(i, str) for i in treat_ctrl)) > 1
-        treat_ctrl = np.array(list(treat_ctrl), dtype=object if mixed else None)
+        # keep every label as it is, the treatments may have different types
+        treat_ctrl = np.array(list(treat_ctrl), dtype=object)
         treat_ctrl = trans.transform(treat_ctrl.reshape(1, -1))
     else:
         if treat:
-- 
2.43.0


From c929d5de70d7da0a6f14418beb21de3fb753ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 127/150] fix: instrumental variables: accept labels of
 treatments of different types

---
 ylearn/estimator_model/iv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 587314f..d5a5fa9 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -334,9 +334,11 @@ class NP2SLS(BaseEstModel):
         v, w, x, n = self._check_data(data=data)
 
         if quantity != "CF":
+            # the labels of discrete treatments may have different types
+            dtype = object if self.is_discrete_treatment else None
             if treat is not None:
                 if not isinstance(treat, np.ndarray):
-                    treat = np.array([treat]).reshape(1, -1)
+                    treat = np.array([treat], dtype=dtype).reshape(1, -1)
                 # assert (
                 #     treat.shape[1] == self._x_d
                 # ), f"Expect dimension of treat as {self._x_d}, but was given {treat.shape[1]}"
@@ -354,7 +356,7 @@ class NP2SLS(BaseEstModel):
 
             if control is not None:
                 if not isinstance(control, np.ndarray):
-                    control = np.array([control]).reshape(1, -1)
+                    control = np.array([control], dtype=dtype).reshape(1, -1)
                 control = control.reshape(-1, self._x_d)
                 # assert (
                 #     control.shape[1] == self._x_d
@@ -371,8 +373,8 @@ class NP2SLS(BaseEstModel):
                 ), f"The number of control {x0.shape[0]} does not match the number of the samples"
 
             if self.is_discrete_treatment:
-                xt = self.treatment_transformer.transform(xt)
-                x0 = self.treatment_transformer.transform(x0)
+                xt = self.treatment_transformer.transform(xt.astype(object))
+                x0 = self.treatment_transformer.transform(x0.astype(object))
             # else:
             #     if treat is not None and not isinstance(treat, np.ndarray):
             #         treat = np.array([treat]).reshape(-1, 1)
@@ -427,7 +429,7 @@ class NP2SLS(BaseEstModel):
             )
             v = self._v_basis_func.transform(v) if v is not None else None
             if self.is_discrete_treatment:
-                x = self.treatment_transformer.transform(x)
+                x = self.treatment_transformer.transform(x.astype(object))
 
             n = len(data)
 
-- 
2.43.0


From 64f19f75dd8de60a32b272c70a4440e90330eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 128/150] fix: DeepIV: accept an integer as the dimension of
 the hidden layers, as documented

---
 ylearn/estimator_model/deepiv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index 385a5d7..da54da2 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -963,6 +963,8 @@ class DeepIV(BaseEstModel):
 
     def _gen_x_model(self, x_model, *args, **kwargs):
         hidden_d_list = kwargs.pop('hidden_d', [64, 128, 64])
+        if isinstance(hidden_d_list, int):
+            hidden_d_list = [hidden_d_list] * 3
         for i, hidden_d in enumerate(hidden_d_list, 1):
             kwargs[f'hidden_d{i}'] = hidden_d
 
@@ -983,6 +985,8 @@ class DeepIV(BaseEstModel):
 
     def _gen_y_model(self, y_model, *args, **kwargs):
         hidden_d_list = kwargs.pop('hidden_d', [64, 128, 64])
+        if isinstance(hidden_d_list, int):
+            hidden_d_list = [hidden_d_list] * 3
         for i, hidden_d in enumerate(hidden_d_list, 1):
             kwargs[f'hidden_d{i}'] = hidden_d
 
-- 
2.43.0


From 82588d16161889012c398fdb8d68055ac6abfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 129/150] fix: IdentificationError: let the error be shown by
 repr and copied

---
 ylearn/causal_model/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/utils.py b/ylearn/causal_model/utils.py
index 8d130fc..05c35d6 100644
--- a/ylearn/causal_model/utils.py
+++ b/ylearn/causal_model/utils.py
@@ -141,7 +141,7 @@ def powerset(iterable):
 
 class IdentificationError(Exception):
     def __init__(self, info):
-        super().__init__(self)
+        super().__init__(info)
         self.info = info
 
     def __str__(self):
-- 
2.43.0


From e549a349cfb9c1230aa4336fe8d2ad0698db24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 130/150] fix: tree drawings name the columns that a node is
 split by

A covariate given as a string was drawn by its characters, and features made by a
covariate transformer were drawn with the names of other columns.
---
 ylearn/effect_interpreter/_export.py            | 14 ++++++++++++++
 ylearn/effect_interpreter/ce_interpreter.py     |  6 +++---
 ylearn/effect_interpreter/policy_interpreter.py |  6 +++---
 ylearn/policy/policy_model.py                   |  4 +++-
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/ylearn/effect_interpreter/_export.py b/ylearn/effect_interpreter/_export.py
index 3244232..f555782 100644
--- a/ylearn/effect_interpreter/_export.py
+++ b/ylearn/effect_interpreter/_export.py
@@ -9,6 +9,20 @@ from sklearn.tree import _criterion
 from numbers import Integral
 
 
+def get_feature_names(covariate, transformer=None):
+    """Names of the features which a tree is fitted with: the columns of the covariate, or,
+    if they are transformed, the features that the transformer makes of them.
+
+    Returns None if the transformer does not name its features.
+    """
+    names = [covariate] if isinstance(covariate, str) else list(covariate)
+    if transformer is None:
+        return names
+    if not hasattr(transformer, 'get_feature_names_out'):
+        return None
+    return list(transformer.get_feature_names_out(names))
+
+
 class TreeProxy(object):
     """Attach node_dict attr for any tree object"""
 
diff --git a/ylearn/effect_interpreter/ce_interpreter.py b/ylearn/effect_interpreter/ce_interpreter.py
index c27e993..ee38325 100644
--- a/ylearn/effect_interpreter/ce_interpreter.py
+++ b/ylearn/effect_interpreter/ce_interpreter.py
@@ -11,7 +11,7 @@ import pandas as pd
 from sklearn.tree import DecisionTreeRegressor
 
 
-from ylearn.effect_interpreter._export import _CateTreeExporter
+from ylearn.effect_interpreter._export import _CateTreeExporter, get_feature_names
 from ylearn.estimator_model.utils import convert2array
 
 
@@ -357,8 +357,8 @@ class CEInterpreter:
 
         impurity = False
 
-        if feature_names == None:
-            feature_names = self.covariate
+        if feature_names is None:
+            feature_names = get_feature_names(self.covariate, self.cov_transformer)
 
         exporter = _CateTreeExporter(
             max_depth=max_depth,
diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index a96c5f2..2f2611b 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from ._export import _PolicyTreeMPLExporter
+from ._export import _PolicyTreeMPLExporter, get_feature_names
 
 
 class PolicyInterpreter:
@@ -366,8 +366,8 @@ class PolicyInterpreter:
         """
         assert self._is_fitted
 
-        if feature_names == None:
-            feature_names = self.covariate
+        if feature_names is None:
+            feature_names = get_feature_names(self._tree_model.covariate, self._tree_model.cov_transformer)
 
         exporter = _PolicyTreeMPLExporter(feature_names=feature_names,
                                           treatment_names=self.treatment_names_,
diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index c030157..21f755f 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -28,6 +28,7 @@ from sklearn.tree import plot_tree
 
 from ..utils import logging
 from ..utils._common import convert2array
+from ..effect_interpreter._export import get_feature_names
 
 from ._tree.tree_criterion import PRegCriteria
 from ._tree.tree_criterion import PRegCriteria1
@@ -770,7 +771,8 @@ class PolicyTree:
         assert self._is_fitted
 
         impurity = False
-        feature_names = self.covariate if feature_names is None else feature_names
+        if feature_names is None:
+            feature_names = get_feature_names(self.covariate, self.cov_transformer)
 
         return plot_tree(
             self,
-- 
2.43.0


From 05305bfca5a4dc672a1bd539a2561df4b0254d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 131/150] fix: draw trees whose effects are all equal or whose
 best treatments tie

The colour of such a node was the quotient of two zeros, and plot failed.
---
 ylearn/effect_interpreter/_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/effect_interpreter/_export.py b/ylearn/effect_interpreter/_export.py
index f555782..0b93622 100644
--- a/ylearn/effect_interpreter/_export.py
+++ b/ylearn/effect_interpreter/_export.py
@@ -151,7 +151,8 @@ class _TreeExporter(_BaseTreeExporter):
             # Classification tree
             color = list(self.colors["rgb"][np.argmax(value)])
             sorted_values = sorted(value, reverse=True)
-            if len(sorted_values) == 1:
+            if len(sorted_values) == 1 or sorted_values[1] == 1:
+                # nothing to compare with, or none is larger than the other
                 alpha = 0
             else:
                 alpha = (sorted_values[0] - sorted_values[1]) / (1 - sorted_values[1])
-- 
2.43.0


From babf9220483f1bce8b942e0d3348b46998d70291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 132/150] fix: PolicyInterpreter.plot heeds label, node_ids and
 proportion and returns the annotations

---
 ylearn/effect_interpreter/policy_interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ylearn/effect_interpreter/policy_interpreter.py b/ylearn/effect_interpreter/policy_interpreter.py
index 2f2611b..152b833 100644
--- a/ylearn/effect_interpreter/policy_interpreter.py
+++ b/ylearn/effect_interpreter/policy_interpreter.py
@@ -372,10 +372,14 @@ class PolicyInterpreter:
         exporter = _PolicyTreeMPLExporter(feature_names=feature_names,
                                           treatment_names=self.treatment_names_,
                                           max_depth=max_depth,
+                                          class_names=class_names,
+                                          label=label,
                                           filled=filled,
                                           impurity=False,
+                                          node_ids=node_ids,
+                                          proportion=proportion,
                                           rounded=rounded,
                                           precision=precision,
                                           fontsize=fontsize)
 
-        exporter.export(self._tree_model, node_dict=self.node_dict_, ax=ax)
+        return exporter.export(self._tree_model, node_dict=self.node_dict_, ax=ax)
-- 
2.43.0


From 1e2b0de0ca403a113d90648f4fcda29f1aff7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 133/150] fix: plot of CausalTree and PolicyTree draws the tree

plot_tree of scikit-learn checks that it is given one of its own trees, so that both
methods always failed; use the exporter behind it.
---
 ylearn/estimator_model/causal_tree.py | 9 +++++----
 ylearn/policy/policy_model.py         | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index d6017ec..372112b 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -22,7 +22,7 @@ from ylearn.sklearn_ex.cloned.tree._splitter import RandomSplitter
 from ylearn.sklearn_ex.cloned.tree._tree import DepthFirstTreeBuilder
 from ylearn.sklearn_ex.cloned.tree._tree import BestFirstTreeBuilder
 from ylearn.sklearn_ex.cloned.tree._tree import Tree
-from sklearn.tree import plot_tree
+from sklearn.tree._export import _MPLTreeExporter
 
 from ..utils import logging
 from .utils import convert2array, get_wv, get_treat_control, _partition_estimators
@@ -711,8 +711,8 @@ class CausalTree(BaseEstModel):
                     cov = list(self.covariate)
                 feature_names.extend(cov)
 
-        return plot_tree(
-            self,
+        # plot_tree of scikit-learn refuses trees which are not its own
+        exporter = _MPLTreeExporter(
             max_depth=max_depth,
             feature_names=feature_names,
             class_names=None,
@@ -723,10 +723,11 @@ class CausalTree(BaseEstModel):
             proportion=proportion,
             rounded=rounded,
             precision=precision,
-            ax=ax,
             fontsize=fontsize,
         )
 
+        return exporter.export(self, ax=ax)
+
     def _fit_with_array(self, y, x, w, v, treat, control):
         # check random state
         random_state = check_random_state(self.random_state)
diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index 21f755f..f11bc54 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -24,7 +24,7 @@ from ylearn.sklearn_ex.cloned.tree._criterion import Criterion
 from ylearn.sklearn_ex.cloned.tree._tree import Tree
 from ylearn.sklearn_ex.cloned.tree._tree import DepthFirstTreeBuilder
 from ylearn.sklearn_ex.cloned.tree._tree import BestFirstTreeBuilder
-from sklearn.tree import plot_tree
+from sklearn.tree._export import _MPLTreeExporter
 
 from ..utils import logging
 from ..utils._common import convert2array
@@ -774,8 +774,8 @@ class PolicyTree:
         if feature_names is None:
             feature_names = get_feature_names(self.covariate, self.cov_transformer)
 
-        return plot_tree(
-            self,
+        # plot_tree of scikit-learn refuses trees which are not its own
+        exporter = _MPLTreeExporter(
             max_depth=max_depth,
             feature_names=feature_names,
             class_names=class_names,
@@ -786,10 +786,11 @@ class PolicyTree:
             proportion=proportion,
             rounded=rounded,
             precision=precision,
-            ax=ax,
             fontsize=fontsize,
         )
 
+        return exporter.export(self, ax=ax)
+
     @property
     def n_features_(self):
         return self.n_features_in_
-- 
2.43.0


From 15c59c3eec692786bfd945bbcf567ffc98c4a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:53 +0000
Subject: [PATCH 134/150] fix: pydot_layout finds nodes and edges whose names
 graphviz quotes

---
 ylearn/bayesian/_dag.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index e6fd000..f8cdd64 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -200,15 +200,14 @@ class DiGraph(nx.DiGraph):
         assert len(Q_list) == 1
 
         Q = Q_list[0].get_subgraph('DAG')[0]
+        # names other than plain words are quoted by graphviz
+        nodes = {n.get_name().strip('"'): n for n in Q.get_nodes()}
+        edges = {(e.get_source().strip('"'), e.get_destination().strip('"')): e for e in Q.get_edges()}
+
         node_layout = {}
         for n in self.nodes():
             node_info = {}
-            str_n = str(n)
-            pydot_node = pydot.Node(str_n).get_name()
-            node = Q.get_node(pydot_node)
-
-            if isinstance(node, list):
-                node = node[0]
+            node = nodes[str(n)]
             pos = node.get_pos()
             if pos is not None:
                 xx, yy = pos.strip('"').split(",")
@@ -227,9 +226,7 @@ class DiGraph(nx.DiGraph):
 
         edge_layout = {}
         for es, ee in self.edges():
-            edge = Q.get_edge(str(es), str(ee))
-            if isinstance(edge, (list, tuple)):
-                edge = edge[0]
+            edge = edges[(str(es), str(ee))]
             pos = edge.get_pos().replace('\\\n', '').strip('"')
             xs = []
             ys = []
-- 
2.43.0


From 2b0f7e548431446ba3e5b56fea6740ed78d71fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 135/150] fix: feature importances of a forest whose splits
 separate nothing are zero, not NaN

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index d2b8166..34f19b9 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -383,7 +383,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             )
 
         all_importances = np.mean(all_importances, axis=0, dtype=np.float64)
-        return all_importances / np.sum(all_importances)
+        total = np.sum(all_importances)
+        # splits which separate nothing, e.g. of a constant outcome, have no importance
+        return all_importances / total if total != 0 else all_importances
 
     # TODO: add check data
     def _fit_with_array(self, y, x, w, v, sample_weight=None, **kwargs):
-- 
2.43.0


From 8364bbe913f9275cb938e0b91fdf5323c1fd4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 136/150] fix: a Bayesian network fitted again kept the
 interventions on the one fitted before

---
 ylearn/bayesian/_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 30b64a8..ae794c8 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -228,6 +228,7 @@ class BayesianNetwork(BObject):
 
     def fit(self, data: pd.DataFrame, *, inplace=True, random_state=None, **kwargs):
         obj = self._fit(data, inplace=inplace, random_state=random_state, **kwargs)
+        obj.interventions_ = None  # those on the network fitted before, if any
         obj._update_graph_shape()
         obj._is_fitted = True
         return obj
-- 
2.43.0


From 60786ddd6170b8bb394b97e98793cb3be3bc9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 137/150] fix: BayesianNetwork.estimate ignored the
 interventions on the network

---
 ylearn/bayesian/_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index ae794c8..2cc67b4 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -487,7 +487,10 @@ class BayesianNetwork(BObject):
         model = self.model_
         nodes = self.graph.get_blanket(outcome, kind='upstream', topo_sorted=True)
         model = partial(model.model, nodes=nodes)
-        model = poutine.condition(model, self.fitted_params)
+        condition = dict(self.fitted_params)
+        condition.update({k: torch.tensor(self.state_[k].encode(v)) for k, v in self.interventions.items()
+                          if k not in treatment})
+        model = poutine.condition(model, condition)
 
         # outcomes are to be drawn, and the children of treatment depend on its new value
         data = data[[c for c in data.columns if c not in outcome]]
-- 
2.43.0


From ef2275db85094ae2376911bd875d64efb06dffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 138/150] fix: a Bayesian network fitted again started from the
 parameters of the other table, or failed on other classes

---
 ylearn/bayesian/_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 2cc67b4..ed79e2c 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -593,6 +593,9 @@ class SviBayesianNetwork(BayesianNetwork):
         nodes = self.graph.get_nodes()
         assert set(columns) >= set(nodes)
 
+        # the parameters fitted before, if any, may be of other states
+        pyro.get_param_store().clear()
+
         if random_state is not None:
             set_random_state(random_state)
 
-- 
2.43.0


From f54e7bf06d7bd99dbcadea912677e50902006c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:36 +0000
Subject: [PATCH 139/150] fix: FeatureImportancesSelectionTransformer fitted
 again kept the task inferred from the first outcome

---
 ylearn/sklearn_ex/_transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 13850a1..c21ae98 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -139,8 +139,9 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         self.selected_features_ = None
 
     def fit(self, X, y):
-        if self.task is None:
-            self.task, _ = infer_task_type(y)
+        task = self.task
+        if task is None:
+            task, _ = infer_task_type(y)
 
         columns_in = X.columns.to_list()
         # logger.info(f'all columns: {columns}')
@@ -158,7 +159,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
 
         preprocessor = general_preprocessor()
 
-        if self.task != 'regression' and y.dtype != 'int':
+        if task != 'regression' and y.dtype != 'int':
             logger.info('label encoding')
             le = LabelEncoder()
             y = le.fit_transform(y)
@@ -166,7 +167,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         logger.info('preprocessing')
         X = preprocessor.fit_transform(X, y)
 
-        estimator = general_estimator(X, y, task=self.task)
+        estimator = general_estimator(X, y, task=task)
         logger.info(f'scoring feature_importances with {estimator} ')
         estimator.fit(X, y)
         importances = estimator.feature_importances_
-- 
2.43.0


From fee2f66919deb5d97e7b304d569c153e34b8ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 140/150] fix: DataCleaner fitted again dropped the columns
 found in the first table

---
 ylearn/sklearn_ex/_data_cleaner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index a102852..3b77640 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -285,6 +285,10 @@ class DataCleaner:
         if copy_data:
             X, y = self._copy(X, y)
 
+        # found by the last fit, if any
+        self.dropped_duplicated_columns_ = None
+        self.dropped_idness_columns_ = None
+        self.dropped_constant_columns_ = None
         X, y = self.clean_data(X, y, reduce_mem_usage=self.reduce_mem_usage)
 
         logger.debug('collect meta info from data')
-- 
2.43.0


From 8b5d77ab53882cdb35f623a5ed143098a5021045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 141/150] fix: Why fitted again kept the kinds of outcome and
 treatment inferred from the first table

---
 ylearn/api/_why.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 5a3530b..ace608e 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -171,6 +171,7 @@ class Why:
 
         # fitted
         self._is_fitted = False
+        self._inferred = set()  # the options found out from the data
         self.feature_names_in_ = None
         self.treatment_ = None
         self.outcome_ = None
@@ -244,8 +245,9 @@ class Why:
             data = data.copy()
 
         y = data[outcome]
-        if self.discrete_outcome is None:
+        if self.discrete_outcome is None or 'discrete_outcome' in self._inferred:
             self.discrete_outcome = utils.is_discrete(y)
+            self._inferred.add('discrete_outcome')
             logger.info(f'infer outcome as {utils.task_tag(self.discrete_outcome)}')
 
         # if not _is_number(y.dtype):
@@ -375,6 +377,9 @@ class Why:
 
         identifier = None
 
+        if 'discrete_treatment' in self._inferred:
+            self.discrete_treatment = None
+
         treatment = utils.to_list(treatment, name='treatment')
         if utils.is_empty(treatment):
             identifier = self._create_identifier()
@@ -394,6 +399,7 @@ class Why:
 
         if self.discrete_treatment is None:
             self.discrete_treatment = utils.is_discrete(data[treatment[0]])
+            self._inferred.add('discrete_treatment')
             if logger.is_info_enabled():
                 logger.info(f'infer discrete_treatment={self.discrete_treatment}')
 
-- 
2.43.0


From 24f1c10285bb907c977b73fefb463a91e6033206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 142/150] fix: DataCleaner.transform wrapped or truncated
 numbers that do not fit the type of the training column

---
 ylearn/sklearn_ex/_data_cleaner.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index 3b77640..dc941c5 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -6,6 +6,7 @@ import copy
 
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_float_dtype, is_numeric_dtype
 from sklearn.compose import make_column_selector
 
 from ylearn.utils import logging
@@ -84,13 +85,26 @@ class _CleanerHelper:
                 for col in columns:
                     try:
                         if str(X[col].dtype) != str(dtype):
-                            X[col] = X[col].astype(dtype)
+                            Xc = X[col].astype(dtype)
+                            if self._is_kept(X[col], Xc):
+                                X[col] = Xc
+                            else:
+                                logger.debug(f'Keep column [{col}] as {X[col].dtype}, its values do not fit in {dtype}')
                     except Exception as e:
                         if logger.is_debug_enabled():
                             logger.debug(f'Correct object column [{col}] as {dtype} failed. {e}')
 
         return X
 
+    @staticmethod
+    def _is_kept(x, x_converted):
+        """whether the numbers of x survived the conversion, up to the precision of floats"""
+        if not (is_numeric_dtype(x.dtype) and is_numeric_dtype(x_converted.dtype)):
+            return True
+        if is_float_dtype(x_converted.dtype):
+            return not (np.isinf(x_converted) & ~np.isinf(x)).any()
+        return (x_converted == x).all()
+
     def drop_duplicated_columns(self, X, excludes=None):
         duplicates = self._get_duplicated_columns(X)
         dup_cols = [i for i, v in duplicates.items() if v and (excludes is None or i not in excludes)]
-- 
2.43.0


From ef2f6992d9ff5998e972a9ecddd308807c94ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 143/150] fix: DataCleaner.append_drop_columns failed before
 fit

---
 ylearn/sklearn_ex/_data_cleaner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index dc941c5..1517c7b 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -356,7 +356,8 @@ class DataCleaner:
                 meta[dtype] = [c for c in cols if c not in columns]
             self.df_meta_ = meta
 
-        self.columns_ = [c for c in self.columns_ if c not in columns]
+        if self.columns_ is not None:
+            self.columns_ = [c for c in self.columns_ if c not in columns]
 
     def _repr_html_(self):
         cleaner_info = [
-- 
2.43.0


From 6e85464abbcfef5fa4c2fb715cb2859b61af3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 144/150] fix: general_preprocessor failed on categories that
 are numbers

---
 ylearn/sklearn_ex/_transformer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index c21ae98..a900ca2 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -256,6 +256,12 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         return selected, unselected
 
 
+def _select_number_category(X):
+    """columns of dtype category whose categories are numbers or bools, which a string can not be imputed to"""
+    return [c for c in X.columns if isinstance(X[c].dtype, pd.CategoricalDtype)
+            and X[c].cat.categories.dtype.kind in 'biuf']
+
+
 def general_preprocessor(*, number_scaler=None):
     cat_steps = [('imputer_cat', SimpleImputer(strategy='constant', fill_value='')),
                  ('encoder', SafeOrdinalEncoder())]
@@ -274,7 +280,8 @@ def general_preprocessor(*, number_scaler=None):
     num_selector = make_column_selector(dtype_include='number', dtype_exclude='timedelta')
 
     preprocessor = DataFrameMapper(
-        features=[(cat_selector, cat_transformer),
+        features=[(_select_number_category, SafeOrdinalEncoder()),
+                  (cat_selector, cat_transformer),
                   (bool_selector, bool_transformer),
                   (num_selector, num_transformer)],
         input_df=True,
-- 
2.43.0


From 68285b51c613b7081058f2aa0276abfa99e41e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:26 +0000
Subject: [PATCH 145/150] fix: SafeOrdinalEncoder looked up the values in the
 common type of the columns

---
 ylearn/sklearn_ex/_transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index a900ca2..f8c9245 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -64,9 +64,10 @@ class SafeOrdinalEncoder(OrdinalEncoder):
             vf = np.vectorize(lambda x: m[x] if x in m.keys() else unseen)
             return vf
 
-        values = X if isinstance(X, np.ndarray) else X.values
+        # by column, the common type of the columns of a DataFrame may not hold all their values
+        values = X.T if isinstance(X, np.ndarray) else [X.iloc[:, i].to_numpy() for i in range(X.shape[1])]
         encoders_ = [make_encoder(cat) for cat in self.categories_]
-        result = [encoders_[i](values[:, i]) for i in range(values.shape[1])]
+        result = [encoders_[i](values[i]) for i in range(X.shape[1])]
 
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
-- 
2.43.0


From d1e8b463ed8d65de37ca710a0ab011881f12ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:05 +0000
Subject: [PATCH 146/150] fix: policy_interpreter of Why failed for continuous
 treatments of a discrete outcome

---
 ylearn/api/_why.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index ace608e..ccb8b00 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1039,6 +1039,19 @@ class Why:
 
         return score
 
+    def _target_effect(self, effect, target_outcome):
+        # of the effects on the probabilities of all classes, those on the asked one
+        if self.discrete_outcome and effect.shape[1] > 1:
+            assert effect.shape[1] == len(self.y_encoder_.classes_)
+            if target_outcome is not None:
+                nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
+                if len(nz) == 0:
+                    raise ValueError(f'Invalid target_outcome: "{target_outcome}"')
+                effect = effect[:, nz[0]:nz[0] + 1, :]
+            else:
+                effect = effect[:, -1:, :]
+        return effect
+
     def _effect_array(self, test_data, preprocessed_data, treatment, control=None, target_outcome=None):
         if treatment is None:
             treatment = self.treatment_[:2]
@@ -1064,16 +1077,7 @@ class Why:
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
 
-            if self.discrete_outcome and effect.shape[1] > 1:
-                assert effect.shape[1] == len(self.y_encoder_.classes_)
-                if target_outcome is not None:
-                    nz = np.nonzero(self.y_encoder_.classes_ == target_outcome)[0]
-                    if len(nz) == 0:
-                        raise ValueError(f'Invalid target_outcome: "{target_outcome}"')
-                    effect = effect[:, nz[0]:nz[0] + 1, :]
-                else:
-                    effect = effect[:, -1:, :]
-
+            effect = self._target_effect(effect, target_outcome)
             assert effect.ndim == 3 and effect.shape[1] == 1
             effect_array = effect.squeeze(axis=1)
             classes = [self.x_encoders_[x].classes_.tolist() for x in treatment]
@@ -1083,9 +1087,10 @@ class Why:
             for i, x in enumerate(treatment):
                 estimator = self.estimators_[x]
                 ci = control[i] if control is not None else None
-                options = drop_none(control=ci, target_outcome=target_outcome)
+                options = drop_none(control=ci)
                 effect = estimator.effect_nji(preprocessed_data, **options)
                 assert isinstance(effect, np.ndarray)
+                effect = self._target_effect(effect, target_outcome)
                 assert effect.ndim == 3 and effect.shape[1] == 1
                 effects.append(effect.squeeze(axis=1))
             effect_array = np.hstack(effects)
-- 
2.43.0


From d99fddabdc5123cd40dd41c54efb2d219a5e7f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 147/150] fix: a Bayesian network failed to predict or sample
 from rows which give none of its other nodes

---
 ylearn/bayesian/_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index ed79e2c..3889ae7 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -100,7 +100,7 @@ class BayesianModel(BObject):
             data = {}
             if n_samples is None:
                 n_samples = 1
-        else:
+        elif len(data) > 0:
             n_samples = len(next(iter(data.values())))  # get N from the first data item
 
         graph = self.graph
@@ -274,7 +274,7 @@ class BayesianNetwork(BObject):
             condition.update(interventions)
         model = poutine.condition(model, condition)
 
-        samples = model(data=data_t, n_samples=n_samples, nodes=nodes)
+        samples = model(data=data_t, n_samples=n_samples if data is None else len(data), nodes=nodes)
 
         result = {k: states[k].decode(v.numpy()) for k, v in samples.items()}
         result = pd.DataFrame(result, index=data.index if data is not None else None)
@@ -320,7 +320,7 @@ class BayesianNetwork(BObject):
             #     posterior = {k: v[0] for k, v in posterior.items()}
             # else:
             #     posterior = self.guide_(test_data)
-            trace = poutine.trace(conditioned_model).get_trace(test_data)
+            trace = poutine.trace(conditioned_model).get_trace(test_data, n_samples=len(data))
             # print('G1', trace.nodes['G1']['value'][0])
             collectors(trace)
 
-- 
2.43.0


From edf2914ca77bbbda01520f2ed57cfe3ae79da3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 148/150] fix: what a node is called decided how a Bayesian
 network was fitted

---
 ylearn/bayesian/_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 3889ae7..abfd25d 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -604,7 +604,7 @@ class SviBayesianNetwork(BayesianNetwork):
         model = BayesianModel(self.graph, state)
 
         def _is_cat(site):
-            n = site['name'].split('_')[0]
+            n = site['name'].rsplit('__', 1)[0]  # as named by the modules: node__weight, node__bias, ...
             return n in state.keys() and isinstance(state[n], CategoryNodeState)
 
         gmodel = pyro.poutine.block(model.model, hide=nodes)
-- 
2.43.0


From 74583102d34aef7bd6be82400cf8852ab37bcd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 149/150] fix: columns which are not nodes made a Bayesian
 network fail

---
 ylearn/bayesian/_data.py    | 2 ++
 ylearn/bayesian/_network.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ylearn/bayesian/_data.py b/ylearn/bayesian/_data.py
index def6e6c..4267493 100644
--- a/ylearn/bayesian/_data.py
+++ b/ylearn/bayesian/_data.py
@@ -17,6 +17,8 @@ class DataLoader(_base.BObject):
         df = data.copy()
         result = {}
         for c in df.columns.tolist():
+            if c not in self.state:
+                continue  # not a node of the network
             v = self.state[c].encode(df[c].values)
             result[c] = torch.tensor(v)
         #
diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index abfd25d..14548b3 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -599,6 +599,7 @@ class SviBayesianNetwork(BayesianNetwork):
         if random_state is not None:
             set_random_state(random_state)
 
+        data = data[[c for c in columns if c in nodes]]
         loader = DataLoader(data=data)
         state = loader.state
         model = BayesianModel(self.graph, state)
-- 
2.43.0


From c59b02ec81509dd21adf60420a1bd6cd0844996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:38 +0000
Subject: [PATCH 150/150] fix: DeepIV could not answer for discrete outcomes

---
 ylearn/estimator_model/deepiv.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/deepiv.py b/ylearn/estimator_model/deepiv.py
index da54da2..c046443 100644
--- a/ylearn/estimator_model/deepiv.py
+++ b/ylearn/estimator_model/deepiv.py
@@ -825,7 +825,7 @@ class DeepIV(BaseEstModel):
                 treat_id = (torch.ones(n, ) * treat).int()
 
                 xt = eye.index_select(dim=0, index=treat_id)
-                y_pred = self.y_net.predict(xt, w)
+                y_pred = self._predict_y(xt, w)
                 y_nji[:, :, treat] = y_pred.reshape(n, self._y_d)
 
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, self._x_d))
@@ -833,14 +833,20 @@ class DeepIV(BaseEstModel):
             y_nji = torch.zeros((n, self._y_d, 2), dtype=w.dtype)
             xt = torch.ones(n, self._x_d, dtype=w.dtype)
             x0 = torch.zeros(n, self._x_d, dtype=w.dtype)
-            y_nji[:, :, 0] = self.y_net.predict(x0, w)
-            y_nji[:, :, 1] = self.y_net.predict(xt, w)
+            y_nji[:, :, 0] = self._predict_y(x0, w)
+            y_nji[:, :, 1] = self._predict_y(xt, w)
             y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat((1, 1, 2))
 
         y_nji = y_nji - y_ctrl
 
         return y_nji
 
+    def _predict_y(self, x, w):
+        # what is estimated for a discrete outcome are the probabilities of its classes
+        if self.is_discrete_outcome:
+            return self.y_net.predict_proba(x, w)
+        return self.y_net.predict(x, w)
+
     def _get_w(self, data=None):
         if data is None:
             return self.w
@@ -884,14 +890,14 @@ class DeepIV(BaseEstModel):
             xt = eye.index_select(dim=0, index=treat_id)
             x0 = eye.index_select(dim=0, index=control_id)
 
-            return (self.y_net.predict(xt, w), self.y_net.predict(x0, w))
+            return (self._predict_y(xt, w), self._predict_y(x0, w))
         else:
             ones = torch.ones(n, self._x_d, dtype=w.dtype)
             xt = ones * treat
             x0 = ones * control
             xt.requires_grad = True
 
-            yt = self.y_net.predict(xt, w)
+            yt = self._predict_y(xt, w)
 
             if marginal_effect:
                 grads = [
@@ -901,7 +907,7 @@ class DeepIV(BaseEstModel):
                 grad = grads[0] if self._y_d == 1 else torch.stack(grads, dim=1)
                 return (grad, )
             else:
-                y0 = self.y_net.predict(x0, w)
+                y0 = self._predict_y(x0, w)
                 return (yt, y0)
 
     def estimate(
-- 
2.43.0

