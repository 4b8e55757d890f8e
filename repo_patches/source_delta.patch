From e0cdda2ec0f3e933e7b4c0c05e1d925a8e2609a3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 01/31] fix: build the join tree of a disconnected network

build_join_tree raised IndexError (or never returned) when the moralised
graph had more than one component, e.g. after an intervention that splits
the network. Join the remaining trees by an empty sepset.
---
 causalnex/ebaybbn/bbn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..dfe40a4 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -995,7 +995,6 @@ def build_join_tree(dag, clique_priority_func=priority_func):
         # Adding in name to make this sort deterministic
         deco = [(s, -1 * s.mass, s.cost, s.__repr__()) for s in S]
         deco.sort(key=lambda x: x[1:])
-        candidate_sepset = deco[0][0]
         for candidate_sepset, _, _, _ in deco:
             if candidate_sepset.insertable(forest):
                 # Insert into forest and remove the sepset
@@ -1003,6 +1002,13 @@ def build_join_tree(dag, clique_priority_func=priority_func):
                 S.remove(candidate_sepset)
                 sepsets_inserted += 1
                 break
+        else:
+            # The network is disconnected: no cliques of different trees
+            # share variables, so join two trees by an empty sepset
+            X = cliques[0]
+            Y = next(c for c in cliques if SepSet(X, c).insertable(forest))
+            SepSet(X, Y).insert(forest)
+            sepsets_inserted += 1
 
     assert len(forest) == 1
     jt = list(forest)[0]
-- 
2.43.0


From 69dda246a2e66d9ff01e7748e32e2b385c3ea63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 02/31] fix: draw_samples on the boundaries of the random draw

A draw above the rounded cumulative mass raised IndexError, and a draw of
exactly 0.0 could return a state of probability zero.
---
 causalnex/ebaybbn/bbn.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index dfe40a4..099e737 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -170,17 +170,20 @@ class BBN:
                 if key not in result_cache:
                     result_cache[key] = self.query(**sample)
                 result = result_cache[key]
+                # Never sample a state of zero probability
                 var_density = [
                     r
                     for r in list(result.items())
-                    if r[0][0] == next_node.variable_name
+                    if r[0][0] == next_node.variable_name and r[1] > 0
                 ]
                 cumulative_density = var_density[:1]
                 for key, mass in var_density[1:]:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
                 r = random()
                 i = 0
-                while r > cumulative_density[i][1]:
+                # The rounded masses may sum to slightly less than r, in
+                # which case the last state is the one to sample
+                while i < len(cumulative_density) - 1 and r >= cumulative_density[i][1]:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From 78cad5c7d75e63adc754b85a20682e2241ad1ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 03/31] fix: copy undirected graphs without recursing along
 their edges

copy.deepcopy of the moralised graph raised RecursionError when querying
a connected network of a few hundred variables.
---
 causalnex/ebaybbn/bbn.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 099e737..9952e25 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -844,10 +844,21 @@ def make_undirected_copy(dag):
     return g
 
 
+def copy_undirected_graph(graph):
+    """Returns a copy of an undirected graph and
+    its nodes. Unlike copy.deepcopy this does not
+    recurse along the edges, which would exhaust
+    the stack for networks of a few hundred nodes."""
+    copies = dict([(node, copy.copy(node)) for node in graph.nodes])
+    for node in copies.values():
+        node.neighbours = [copies[n] for n in node.neighbours]
+    return UndirectedGraph(list(copies.values()), graph.name)
+
+
 def make_moralized_copy(gu, dag):
     """gu is an undirected graph being
     a copy of dag."""
-    gm = copy.deepcopy(gu)
+    gm = copy_undirected_graph(gu)
     gm_nodes = dict([(node.name, node) for node in gm.nodes])
     for node in dag.nodes:
         for parent_1, parent_2 in combinations(node.parents, 2):
@@ -905,7 +916,7 @@ def triangulate(gm, priority_func=priority_func):
     graph as well as the elimination ordering."""
 
     # First we will make a copy of gm...
-    gm_ = copy.deepcopy(gm)
+    gm_ = copy_undirected_graph(gm)
 
     # Now we will construct a priority q using
     # the standard library heapq module.
-- 
2.43.0


From 1168e8ac852fdcab73d23bfd26a25836a02f40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 04/31] fix: do_intervention accepts any hashable state

As documented, a state that is not a dict is a single state to intervene
on; only int (and bool) states worked.
---
 causalnex/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..263d5e2 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -207,7 +207,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From e24b4e71264e6ad2f3956cccc29228999f64687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 05/31] fix: accept interventions whose probabilities sum to 1
 up to rounding

{0: 0.7, 1: 0.2, 2: 0.1} was rejected because its floating point sum is
0.9999999999999999, while the same distribution in another order passed.
---
 causalnex/inference/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 263d5e2..376b261 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -33,6 +33,7 @@ This module contains the implementation of ``InferenceEngine``.
 
 import copy
 import inspect
+import math
 import re
 import types
 from typing import Callable, Dict, Hashable, Tuple, Union
@@ -160,7 +161,7 @@ class InferenceEngine:
             ValueError: if states do not match original states of the node, or probabilities do not sum to 1.
         """
 
-        if sum(state.values()) != 1.0:
+        if not math.isclose(sum(state.values()), 1.0):
             raise ValueError("The cpd for the provided observation must sum to 1")
 
         if max(state.values()) > 1.0 or min(state.values()) < 0:
-- 
2.43.0


From df252387bfdc3468a0dd9e2f607e68f3f94d2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 06/31] fix: InferenceEngine accepts every variable name its
 own check allows

A name such as '1st' matches ^[0-9a-zA-Z_]+$ but is not a valid parameter
name, so inspect.signature rejected the generated node function.
---
 causalnex/inference/inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 376b261..a3efbda 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -316,6 +316,8 @@ class InferenceEngine:
             code.co_cellvars,
         )
         template.__name__ = name
+        # names such as "1st" are allowed, but are not valid parameter names for inspect.signature
+        template.argspec = list(args)
 
         return template
 
-- 
2.43.0


From 148752c5e6f140366242af0902e3b4fed39f913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 07/31] fix: a repeated time stamp does not continue a lag
 window

Rows that share an index value were stacked as if they were successive time
steps; only an index difference of exactly one is successive.
---
 causalnex/structure/transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/structure/transformers.py b/causalnex/structure/transformers.py
index 09d5aa8..5784135 100644
--- a/causalnex/structure/transformers.py
+++ b/causalnex/structure/transformers.py
@@ -256,7 +256,7 @@ class DynamicDataTransformer(BaseEstimator, TransformerMixin):
         """
         time_series_realisations = []
         for t in time_series:
-            cutting_points = np.where(np.diff(t.index) > 1)[0]
+            cutting_points = np.where(np.diff(t.index) != 1)[0]
             cutting_points = [0] + list(cutting_points + 1) + [len(t)]
             for start, end in zip(cutting_points[:-1], cutting_points[1:]):
                 time_series_realisations.append(t.iloc[start:end, :].values)
-- 
2.43.0


From 5242e7982ac8669991646162baea88e972279d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 08/31] fix: label lagged columns of dynamic data by their lag,
 for any number of lags

generate_dataframe_dynamic sorted the lagged nodes by variable, while the rows
hold all variables of lag 1, then of lag 2, ...: with two or more lags columns
were mislabelled and weights applied to the wrong lagged variable.
---
 causalnex/structure/data_generators/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 94ba092..6b7a506 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -548,7 +548,11 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             )
         )
     intra_nodes = sorted(el for el in g.nodes if "_lag0" in el)
-    inter_nodes = sorted(el for el in g.nodes if "_lag0" not in el)
+    # lagged nodes follow the layout of ``Xlags``: all variables of lag 1, then of lag 2, ...
+    inter_nodes = sorted(
+        (el for el in g.nodes if "_lag0" not in el),
+        key=lambda el: (int(el.rsplit("_lag", 1)[1]), el),
+    )
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
-- 
2.43.0


From 724372bba2dfe5a85b08732705d4946d05f0d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 09/31] fix: keep stationary data found on the last allowed
 attempt

gen_stationary_dyn_net_and_df discarded the data of the last attempt and warned
that it failed even when that attempt succeeded (always, with one attempt).
---
 causalnex/structure/data_generators/wrappers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 6b7a506..57a0f9a 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -648,7 +648,7 @@ def gen_stationary_dyn_net_and_df(  # pylint: disable=R0913, R0914
     with np.errstate(over="raise", invalid="raise"):
         burn_in = max(n_samples // 10, 50)
 
-        simulate_flag = True
+        simulate_flag, success = True, False
         g, intra_nodes, inter_nodes = None, None, None
 
         while simulate_flag:
@@ -702,9 +702,9 @@ def gen_stationary_dyn_net_and_df(  # pylint: disable=R0913, R0914
                     continue
             except (OverflowError, FloatingPointError):
                 continue
-            if (df.abs().max().max() < 1e3) or (max_data_gen_trials <= 0):
-                simulate_flag = False
-        if max_data_gen_trials <= 0:
+            if df.abs().max().max() < 1e3:
+                simulate_flag, success = False, True
+        if not success:
             warnings.warn(
                 "Could not simulate data, returning constant dataframe", UserWarning
             )
-- 
2.43.0


From 05dc85db4b9f4ff462e9b51a734de2c982304590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 10/31] fix: generate stationary data without lags

With p=0 there are no lagged edges, so gen_stationary_dyn_net_and_df redrew the
graph forever.
---
 causalnex/structure/data_generators/wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 57a0f9a..b605502 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -683,6 +683,7 @@ def gen_stationary_dyn_net_and_df(  # pylint: disable=R0913, R0914
                         )
                         or degree_intra == 0
                         or degree_inter == 0
+                        or p == 0
                     ):
                         simulate_graphs_flag = False
 
-- 
2.43.0


From 39e1be4e55e9fc54e2d2ffd47ac7fc8e15feb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 11/31] fix: generate a single row of nonlinear data

nonlinear_sem_generator raised IndexError for n_samples=1 and any edge.
---
 causalnex/structure/data_generators/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 384dc2e..ddc4f51 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -759,7 +759,7 @@ def nonlinear_sem_generator(
 def _unconditional_sample(x, kernel):
     cov_mat = kernel(x)
     y = np.random.multivariate_normal(mean=np.zeros(shape=x.shape[0]), cov=cov_mat)
-    return y.squeeze(), cov_mat
+    return y, cov_mat
 
 
 def _conditional_sample(
@@ -842,4 +842,6 @@ def _gp_index(
 
 def _scale_y(y):
     """Normalize variance to 1."""
-    return y / y.std()
+    std = y.std()
+    # a single sample has no variance to normalize
+    return y / std if std > 0 else y
-- 
2.43.0


From 0b35864d6a51b0be1ce99f295a1f4f4c4192898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 12/31] fix: reject schemas whose categorical features share a
 name

With a categorical variable `a` and another variable `a_0`, both used one
feature index and generated data held an uninitialised column.
---
 causalnex/structure/categorical_variable_mapper.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/causalnex/structure/categorical_variable_mapper.py b/causalnex/structure/categorical_variable_mapper.py
index 62cfe74..9aecb91 100644
--- a/causalnex/structure/categorical_variable_mapper.py
+++ b/causalnex/structure/categorical_variable_mapper.py
@@ -47,6 +47,9 @@ class VariableFeatureMapper:
         schema: A dictionary mapping a variable (can be any hashable object) to
             a data type. Permissible data types are stored in the class
             attribute ``PERMISSIBLE_TYPES``.
+
+    Raises:
+        ValueError: if the name of a categorical feature is taken by another feature.
     """
 
     PERMISSIBLE_TYPES = {"binary", "categorical", "continuous", "count"}
@@ -88,6 +91,12 @@ class VariableFeatureMapper:
             + self.variable_type_dict["count"]
             + cat_feature_list
         )
+        n_columns = sum(cat_card_dict.values()) + len(schema) - len(cat_card_dict)
+        if len(set(self.feature_list)) < n_columns:
+            raise ValueError(
+                "Feature names must be unique: a categorical feature, e.g. `a_0` of the "
+                "categorical variable `a`, has the same name as another feature."
+            )
 
         # 2. we assign an index to each feature
         # dictionary: feature to index
-- 
2.43.0


From 37ed349972482895b38a8d34cc533d23dd833f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 13/31] fix: refuse column names that clash with expanded
 categorical columns

from_pandas names the expanded columns of a categorical column x x1, x2, ...; a
data column that already had that name was merged with it into one node, and
edges, bias and dist_type of one overwrote those of the other.
---
 causalnex/structure/pytorch/notears.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/causalnex/structure/pytorch/notears.py b/causalnex/structure/pytorch/notears.py
index 1cd5557..d091954 100644
--- a/causalnex/structure/pytorch/notears.py
+++ b/causalnex/structure/pytorch/notears.py
@@ -297,6 +297,7 @@ def from_pandas(
 
     Raises:
         ValueError: If X does not contain data.
+        ValueError: If a column has the name of an expanded categorical column.
     """
 
     data = deepcopy(X)
@@ -351,6 +352,15 @@ def from_pandas(
     for dist_type in unique_dist_types:
         idx_col_expanded = dist_type.update_idx_col(idx_col_expanded)
 
+    # two columns must not end up under one name, their nodes would be merged
+    if len(set(idx_col_expanded.values())) < len(idx_col_expanded):
+        raise ValueError(
+            "Column names clash with the names of expanded categorical columns. "
+            "Consider renaming the columns. Got {names}".format(
+                names=sorted(map(str, idx_col_expanded.values()))
+            )
+        )
+
     sm = StructureModel()
     # add expanded set of nodes
     sm.add_nodes_from(list(idx_col_expanded.values()))
-- 
2.43.0


From ceec448bd4646a76542f3b72662ce80b1c66aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 14/31] fix: pair the rows of X and y by position in
 DAGRegressor/DAGClassifier.fit

pd.concat aligns on the index, so a data frame X whose index is not the one of
y (e.g. a shuffled or filtered X with a numpy y) was fitted on rows paired by
label, or on missing values.
---
 causalnex/structure/pytorch/sklearn/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3c86528..7b4da57 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -220,6 +220,8 @@ class DAGBase(
         self._target = y.name
 
         # concat X and y along column axis
+        # NOTE: rows correspond by position, so y must share the index of X
+        y = pd.Series(y.values, index=X.index, name=y.name)
         X = pd.concat([X, y], axis=1)
 
         # make copy to prevent mutability
-- 
2.43.0


From 22b15ec8e775d66a67f38b2ada25d1476ad5e7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 15/31] fix: do not truncate standardized integer data in
 predict

The standardized values were written into an array of the dtype of X, so for
integer X they were rounded towards zero.
---
 causalnex/structure/pytorch/sklearn/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 7b4da57..6ed8249 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -263,7 +263,7 @@ class DAGBase(
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
-            X = X.copy()
+            X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
             )
-- 
2.43.0


From 83e9d7e07038da725c9d441ab4fe0aa04b0fbc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 16/31] fix: predict with ordinal features

The inverse link of an ordinal column returns its class probabilities instead of
the whole reconstruction, so with an ordinal feature the target column was then
read from those probabilities: a wrong prediction or an IndexError.
---
 causalnex/structure/pytorch/core.py          | 11 +++++++++--
 causalnex/structure/pytorch/sklearn/_base.py |  8 +++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/causalnex/structure/pytorch/core.py b/causalnex/structure/pytorch/core.py
index ec616d7..571ec0f 100644
--- a/causalnex/structure/pytorch/core.py
+++ b/causalnex/structure/pytorch/core.py
@@ -184,7 +184,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
         x = x.squeeze(dim=2)  # [n, d]
         return x
 
-    def reconstruct_data(self, X: np.ndarray) -> np.ndarray:
+    def reconstruct_data(
+        self, X: np.ndarray, link_dist_types: List[DistTypeBase] = None
+    ) -> np.ndarray:
         """
         Performs X_hat reconstruction,
         then converts latent space to original data space via link function.
@@ -192,6 +194,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
         Args:
             X: input data used to reconstruct
 
+            link_dist_types: the dist types to convert to the original data space.
+            If None, converts all of them.
+
         Returns:
             reconstructed data
         """
@@ -208,7 +213,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
             X_hat = self(X)
 
             # recover each one of the latent space projections
-            for dist_type in self.dist_types:
+            if link_dist_types is None:
+                link_dist_types = self.dist_types
+            for dist_type in link_dist_types:
                 X_hat = dist_type.inverse_link_function(X_hat)
 
             return np.asarray(X_hat.cpu().detach().numpy().astype(np.float64))
diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 6ed8249..3d471f9 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -277,11 +277,13 @@ class DAGBase(
 
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
-        # use base solver to reconstruct data
-        X_hat = structure_learner.reconstruct_data(X)
-
         # get the target dist_type
         target_dist_type = self.graph_.nodes(data=True)[self._target]["dist_type"]
+        # use base solver to reconstruct data
+        # NOTE: only the target is needed, and the link of an ordinal feature
+        # would replace the reconstruction of all other columns
+        X_hat = structure_learner.reconstruct_data(X, [target_dist_type])
+
         # pull off reconstructed y columns
         y_pred = target_dist_type.get_columns(X_hat)
 
-- 
2.43.0


From 5800b86a4648ca00fdc66427bd04a545dad54863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 17/31] fix: decide the target type of a DAGClassifier anew in
 every fit

The type chosen from the number of classes of the first fit was kept as if the
user had requested it: after a fit with two classes, a fit with three classes
used the binary loss and returned two class probabilities.  The requested type
is now an attribute of its own, which get_params and clone also see.
---
 causalnex/structure/pytorch/sklearn/_base.py | 2 +-
 causalnex/structure/pytorch/sklearn/clf.py   | 2 ++
 causalnex/structure/pytorch/sklearn/reg.py   | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3d471f9..63e5707 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -162,7 +162,7 @@ class DAGBase(
         self.tabu_edges = tabu_edges
         self.tabu_parent_nodes = tabu_parent_nodes
         self.tabu_child_nodes = tabu_child_nodes
-        self._target_dist_type = target_dist_type
+        self.target_dist_type = target_dist_type
         self.kwargs = kwargs
 
         # sklearn wrapper paramters
diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index a1a07a5..42ce74a 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -109,6 +109,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             )
 
         # store the protected attr _target_dist_type
+        # NOTE: this depends on the data, so it is decided anew by every fit
+        self._target_dist_type = self.target_dist_type
         if self._target_dist_type is None:
             self._target_dist_type = "cat" if n_classes > 2 else "bin"
 
diff --git a/causalnex/structure/pytorch/sklearn/reg.py b/causalnex/structure/pytorch/sklearn/reg.py
index e4a8227..5a799ee 100644
--- a/causalnex/structure/pytorch/sklearn/reg.py
+++ b/causalnex/structure/pytorch/sklearn/reg.py
@@ -86,6 +86,7 @@ class DAGRegressor(RegressorMixin, DAGBase):
         """
 
         # store the protected attr _target_dist_type
+        self._target_dist_type = self.target_dist_type
         if self._target_dist_type is None:
             self._target_dist_type = "cont"
 
-- 
2.43.0


From acee96555af6d4dc2a85a4e7794c8a21ae41dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 18/31] fix: coefficients and intercept of a DAGClassifier with
 an ordinal target

An ordinal target is one node whatever the number of classes, but one node per
class was looked up: intercept_ raised a KeyError and coef_ and
feature_importances_ had a row of zeros for every further class.
---
 causalnex/structure/pytorch/sklearn/clf.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 42ce74a..2cbc551 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -153,6 +153,10 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             y_pred = np.vstack([1 - y_pred, y_pred]).T
         return y_pred
 
+    @property
+    def _has_single_target_node(self) -> bool:
+        return len(self.classes_) == 2 or self._target_dist_type == "ord"
+
     @property
     def _target_node_names(self) -> List[str]:
         # target node names are build according to
@@ -172,9 +176,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             the L2 relationship between nodes.
             shape: (1, n_features) or (n_classes, n_features).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle binary and ordinal, which have a single target node
+        if self._has_single_target_node:
             return np.asarray(self.get_edges_to_node(self._target).values).reshape(
                 1, -1
             )
@@ -195,9 +198,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             the mean effect relationship between nodes.
             shape: (1, n_features) or (n_classes, n_features).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle binary and ordinal, which have a single target node
+        if self._has_single_target_node:
             return np.asarray(
                 self.get_edges_to_node(self._target, data="mean_effect")
             ).reshape(1, -1)
@@ -220,9 +222,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             The bias term from the target node.
             shape: (1,) or (n_classes,).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle binary and ordinal, which have a single target node
+        if self._has_single_target_node:
             bias = self.graph_.nodes[self._target]["bias"]
             bias = 0.0 if bias is None else float(bias)
             return np.array([bias])
-- 
2.43.0


From 8b92f12d98b13e6e10eb8467dc386dd5e8558cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 19/31] fix: standardize data without continuous features

---
 causalnex/structure/pytorch/sklearn/_base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 63e5707..ee5b7a1 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -198,12 +198,14 @@ class DAGBase(
                 if alias == "cont"
             ]
 
-            # copy X to prevet changes to underlying array data
-            X = X.copy()
-            self._ss_X = StandardScaler()
-            X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
-                X.iloc[:, self.continuous_col_idxs]
-            )
+            # NOTE: the scaler refuses data without any column
+            if self.continuous_col_idxs:
+                # copy X to prevet changes to underlying array data
+                X = X.copy()
+                self._ss_X = StandardScaler()
+                X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
+                    X.iloc[:, self.continuous_col_idxs]
+                )
 
             # if its a continuous target also standardize
             if self._target_dist_type == "cont":
@@ -262,7 +264,7 @@ class DAGBase(
         """
         # force convert to ndarray
         X = np.asarray(X)
-        if self.standardize:
+        if self.standardize and self.continuous_col_idxs:
             X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
-- 
2.43.0


From 5c1eac575575b4a1c5b7e652a7c5f9c49c05bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 20/31] fix: predict_probability when the data has a column
 named {node}_{state}

The probabilities were written into a copy of the data; a parent whose name is
{node}_{state} was overwritten and the remaining states were looked up with it.
---
 causalnex/network/network.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..0dff55a 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -520,7 +520,8 @@ class BayesianNetwork:
         Returns:
             A dataframe of predicted probabilities, contained one column per possible state, named {node}_{state}.
         """
-        transformed_data = data.copy(deep=True)  # type: pd.DataFrame
+        # NOTE: kept apart from data, which may have a column named {node}_{state}
+        probability = pd.DataFrame(index=data.index)
 
         parents = sorted(self._model.get_parents(node))
         cpd = self.cpds[node]
@@ -532,15 +533,11 @@ class BayesianNetwork:
             return cpd.at[s, ""]
 
         for state in self.node_states[node]:
-            transformed_data[
-                "{n}_{s}".format(n=node, s=state)
-            ] = transformed_data.apply(
+            probability["{n}_{s}".format(n=node, s=state)] = data.apply(
                 lambda row, st=state: lookup_probability(row, st), axis=1
             )
 
-        return transformed_data[
-            ["{n}_{s}".format(n=node, s=state) for state in self.node_states[node]]
-        ]
+        return probability
 
     def _predict_probability_from_incomplete_data(
         self, data: pd.DataFrame, node: str
-- 
2.43.0


From bff7b85b368c80f96a0da5d46f22915cc9134813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 21/31] fix: predictions from incomplete data report states,
 not their indices

With a missing parent, predict returned the index of the state and
predict_probability named its columns {node}_{index} instead of the documented
{node}_{state}; both raised KeyError unless the data had a column for the node
to predict.
---
 causalnex/network/network.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 0dff55a..a738807 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -481,11 +480,13 @@ class BayesianNetwork:
         # transformed_data.is_copy()
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
-        predictions = self._model.predict(transformed_data)[[node]]
+        # pgmpy predicts the index of the state
+        predictions = self._model.predict(transformed_data)[node]
+        index_to_state = {i: state for state, i in self._node_states[node].items()}
 
-        return predictions.rename(columns={node: node + "_prediction"})
+        return predictions.map(index_to_state).to_frame(node + "_prediction")
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
         """
@@ -560,20 +561,16 @@ class BayesianNetwork:
         self._state_to_index(transformed_data)
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         probability = self._model.predict_probability(
             transformed_data
         )  # type: pd.DataFrame
 
-        # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
-
-        return probability
+        # keep only probabilities for the node we are interested in,
+        # pgmpy labels them with the index of the state
+        cols = {
+            "{n}_{i}".format(n=node, i=index): "{n}_{s}".format(n=node, s=state)
+            for state, index in self._node_states[node].items()
+        }
+        return probability[list(cols)].rename(columns=cols)
-- 
2.43.0


From bd14f62a2c17ed9bd8c5d3b50fb2587f4a9f28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 22/31] fix: roc_auc compares each state's probability with
 that state's labels

Column names were recovered with str.lstrip, which removes any of the
node name's characters, and then sorted as strings: predictions could be
lined up with another state's labels (states 2 and 10, or node 'b' with
state 'banana').
---
 causalnex/evaluation/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..6e89b89 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -99,9 +99,10 @@ def roc_auc(
     ground_truth = _build_ground_truth(bn, data, node)
     predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # same order of states as in ground_truth
+    predictions = predictions[
+        ["{n}_{s}".format(n=node, s=state) for state in sorted(bn.node_states[node])]
+    ]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From a1acfed2a62199c23393c5b5e19e0339ce177c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 23/31] fix: roc_auc of a node with boolean states

Indexing a frame with a list of booleans selects rows, not columns.
---
 causalnex/evaluation/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 6e89b89..66ba52e 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -47,7 +47,8 @@ def _build_ground_truth(
             ground_truth[dummy] = [0 for _ in range(len(ground_truth))]
 
     # update ground truth column names to be correct, since we may have added missing columns
-    return ground_truth[sorted(ground_truth.columns)]
+    # NOTE: indexing with a list of boolean states would select rows
+    return ground_truth.reindex(columns=sorted(ground_truth.columns))
 
 
 def roc_auc(
-- 
2.43.0


From df161e19de3e2630e8bf5434b027a52bd610f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 24/31] fix: color_gradient_string ends exactly at to_color

Multiplying a rounded step size could leave the last colour one short.
---
 causalnex/plots/plots.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 9cf72ca..66e759b 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -171,12 +171,13 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
         int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
     ]
 
-    delta_colors = [(t - f) / steps for f, t in zip(from_colors, to_colors)]
-
     gradient_colors = [
         "#"
         + "".join(
-            [format(int(f + d * i), "02x") for f, d in zip(from_colors, delta_colors)]
+            [
+                format(int(f + (t - f) * i / steps), "02x")
+                for f, t in zip(from_colors, to_colors)
+            ]
         )
         for i in range(steps + 1)
     ]
-- 
2.43.0


From 5f4ad576e01bd97becfd4ac64806ae7ef339d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 25/31] fix: color_gradient_string draws rgb colours opaque

A colour without alpha, as in the documented example, became fully
transparent.
---
 causalnex/plots/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 66e759b..c22466c 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -165,10 +165,10 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
     )
 
     from_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(from_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(from_color).groups()[1:]
     ]
     to_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(to_color).groups()[1:]
     ]
 
     gradient_colors = [
-- 
2.43.0


From 80e7e5857a3ea5080361bb3a017a67fdd3cc5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 26/31] fix: plot_structure accepts nodes that are tuples

---
 causalnex/plots/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index c22466c..fdaa194 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -198,7 +198,7 @@ def _add_attributes(
 
     # shift labels to be above nodes
     for node in _sm.nodes:
-        _sm.nodes[node]["label"] = "%s\n\n " % node
+        _sm.nodes[node]["label"] = "{0}\n\n ".format(node)
 
     # apply node attributes (start with default, then apply any custom)
     _all_node_attr = {**NODE_STYLE.NORMAL}
-- 
2.43.0


From 65a1c5ef5a18e5dc721d8ba5d697ffad088dedc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 27/31] fix: BayesianNetwork.cpds reports tables of the
 caller's own

---
 causalnex/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index a738807..706e1d7 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -257,7 +257,7 @@ class BayesianNetwork:
             cpds[cpd.variable] = pd.DataFrame(
                 cpd.values.reshape(
                     len(self._node_states[cpd.variable]), max(1, len(cols))
-                )
+                ).copy()
             )
             cpds[cpd.variable][cpd.variable] = sorted(
                 self._node_states[cpd.variable].keys()
-- 
2.43.0


From 1dd691cfc7118abec48317bf5f7cf457175440bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 28/31] fix: copies and pickles of an InferenceEngine are
 independent and work

---
 causalnex/inference/inference.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a3efbda..18e60a3 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -124,6 +124,18 @@ class InferenceEngine:
         self._generate_domains_bn(bn)
         self._generate_bbn()
 
+    def __getstate__(self):
+        # the node functions read the conditional probabilities of the engine they were
+        # created for, so copies (copy.deepcopy, pickle) have to create their own
+        state = self.__dict__.copy()
+        for attribute in ("_node_functions", "_bbn"):
+            state.pop(attribute, None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._generate_bbn()
+
     def query(
         self, observations: Dict[str, Hashable] = None
     ) -> Dict[str, Dict[Hashable, float]]:
-- 
2.43.0


From 65821b734395a52ab9fbd6093d978384dcbafc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 29/31] fix: log to the modules' own loggers, not through the
 root logger

---
 causalnex/ebaybbn/bbn.py               | 24 +++++++++++++-----------
 causalnex/structure/notears.py         |  6 ++++--
 causalnex/structure/pytorch/notears.py |  4 +++-
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 9952e25..49cea0f 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -49,6 +49,8 @@ from .exceptions import VariableNotInGraphError, VariableValueNotInDomainError
 from .graph import Node, UndirectedGraph, UndirectedNode, connect
 from .utils import get_args, get_original_factors
 
+LOGGER = logging.getLogger(__name__)
+
 # from .bayesian import GREEN, NORMAL
 GREEN = "\033[92m"
 NORMAL = "\033[0m"
@@ -347,11 +349,11 @@ class JoinTree(UndirectedGraph):
         # as starting cluster
         if starting_clique is None:
             starting_clique = self.clique_nodes[0]
-        logging.debug("Starting propagating messages from: %s", starting_clique.name)
+        LOGGER.debug("Starting propagating messages from: %s", starting_clique.name)
         # Step 2: Unmark all clusters, call collect_evidence(X)
         for node in self.clique_nodes:
             node.marked = False
-            logging.debug("Marking node as not visited Node: %s", node.name)
+            LOGGER.debug("Marking node as not visited Node: %s", node.name)
         self.collect_evidence(sender=starting_clique)
 
         # Step 3: Unmark all clusters, call distribute_evidence(X)
@@ -362,7 +364,7 @@ class JoinTree(UndirectedGraph):
 
     def collect_evidence(self, sender=None, receiver=None):
 
-        logging.debug("Collect evidence from %s", sender.name)
+        LOGGER.debug("Collect evidence from %s", sender.name)
         # Step 1, Mark X
         sender.marked = True
 
@@ -370,7 +372,7 @@ class JoinTree(UndirectedGraph):
         # neighbouring clusters.
         for neighbouring_clique in sender.neighbouring_cliques:
             if not neighbouring_clique.marked:
-                logging.debug(
+                LOGGER.debug(
                     "Collect evidence from %s to %s",
                     neighbouring_clique.name,
                     sender.name,
@@ -381,7 +383,7 @@ class JoinTree(UndirectedGraph):
             sender.pass_message(receiver)
 
     def distribute_evidence(self, sender=None, receiver=None):
-        logging.debug("Distribute evidence from: %s", sender.name)
+        LOGGER.debug("Distribute evidence from: %s", sender.name)
         # Step 1, Mark X
         sender.marked = True
 
@@ -389,7 +391,7 @@ class JoinTree(UndirectedGraph):
         # unmarked neighbouring clusters
         for neighbouring_clique in sender.neighbouring_cliques:
             if not neighbouring_clique.marked:
-                logging.debug(
+                LOGGER.debug(
                     "Pass message from: %s to %s", sender.name, neighbouring_clique.name
                 )
                 sender.pass_message(neighbouring_clique)
@@ -397,7 +399,7 @@ class JoinTree(UndirectedGraph):
         # Step 3, call distribute_evidence on Xs unmarked neighbours
         for neighbouring_clique in sender.neighbouring_cliques:
             if not neighbouring_clique.marked:
-                logging.debug(
+                LOGGER.debug(
                     "Distribute evidence from: %s to %s",
                     neighbouring_clique.name,
                     sender.name,
@@ -537,12 +539,12 @@ class JoinTreeCliqueNode(UndirectedNode):
         # source and target nodes.
         sepset_node = list(set(self.neighbours).intersection(target.neighbours))[0]
 
-        logging.debug("Pass message from: %s to: %s", self.name, target.name)
+        LOGGER.debug("Pass message from: %s to: %s", self.name, target.name)
         # Step 1: projection
-        logging.debug("Project into the Sepset node: %s", str(sepset_node))
+        LOGGER.debug("Project into the Sepset node: %s", str(sepset_node))
         self.project(sepset_node)
 
-        logging.debug(" Send the summed marginals to the target: %s ", str(sepset_node))
+        LOGGER.debug(" Send the summed marginals to the target: %s ", str(sepset_node))
 
         # Step 2 absorbtion
         self.absorb(sepset_node, target)
@@ -575,7 +577,7 @@ class JoinTreeCliqueNode(UndirectedNode):
     def absorb(self, sepset, target):
         # Assign a new potential tt to
         # Y (the target)
-        logging.debug(
+        LOGGER.debug(
             "Absorb potentails from sepset node %s into clique %s",
             sepset.name,
             target.name,
diff --git a/causalnex/structure/notears.py b/causalnex/structure/notears.py
index 8a1ba4b..d2860f7 100644
--- a/causalnex/structure/notears.py
+++ b/causalnex/structure/notears.py
@@ -51,6 +51,8 @@ import scipy.optimize as sopt
 
 from causalnex.structure.structuremodel import StructureModel
 
+LOGGER = logging.getLogger(__name__)
+
 __all__ = ["from_numpy", "from_pandas", "from_numpy_lasso", "from_pandas_lasso"]
 
 
@@ -413,7 +415,7 @@ def _learn_structure(
 
     if X.size == 0:
         raise ValueError("Input data X is empty, cannot learn any structure")
-    logging.info("Learning structure using 'NOTEARS' optimisation.")
+    LOGGER.info("Learning structure using 'NOTEARS' optimisation.")
 
     # n examples, d properties
     n, d = X.shape
@@ -525,7 +527,7 @@ def _learn_structure_lasso(
 
     if X.size == 0:
         raise ValueError("Input data X is empty, cannot learn any structure")
-    logging.info(
+    LOGGER.info(
         "Learning structure using 'NOTEARS' optimisation with lasso regularisation."
     )
 
diff --git a/causalnex/structure/pytorch/notears.py b/causalnex/structure/pytorch/notears.py
index d091954..14de032 100644
--- a/causalnex/structure/pytorch/notears.py
+++ b/causalnex/structure/pytorch/notears.py
@@ -41,6 +41,8 @@ from causalnex.structure.pytorch.core import NotearsMLP
 from causalnex.structure.pytorch.dist_type import DistTypeContinuous, dist_type_aliases
 from causalnex.structure.structuremodel import StructureModel
 
+LOGGER = logging.getLogger(__name__)
+
 __all__ = ["from_numpy", "from_pandas"]
 
 
@@ -114,7 +116,7 @@ def from_numpy(
     # n examples, d properties
     if not X.size:
         raise ValueError("Input data X is empty, cannot learn any structure")
-    logging.info("Learning structure using 'NOTEARS' optimisation.")
+    LOGGER.info("Learning structure using 'NOTEARS' optimisation.")
     # Check array for NaN or inf values
     check_array(X)
 
-- 
2.43.0


From 6216f1d56d86b2270a735b539a54c777364c6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 30/31] fix: refuse factors that do not form a network instead
 of looping for ever

---
 causalnex/ebaybbn/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/causalnex/ebaybbn/utils.py b/causalnex/ebaybbn/utils.py
index 16265f0..f2e0df0 100644
--- a/causalnex/ebaybbn/utils.py
+++ b/causalnex/ebaybbn/utils.py
@@ -38,6 +38,8 @@
 """Some Useful Helper Functions"""
 import inspect
 
+from .exceptions import InvalidGraphException
+
 # TODO: Find a better location for get_args
 
 
@@ -86,9 +88,16 @@ def get_original_factors(factors):
     """
     original_factors = dict()
     while len(original_factors) < len(factors):
+        n_original_factors = len(original_factors)
         for factor in factors:
             args = get_args(factor)
             unaccounted_args = [a for a in args if a not in original_factors]
             if len(unaccounted_args) == 1:
                 original_factors[unaccounted_args[0]] = factor
+        if len(original_factors) == n_original_factors:
+            raise InvalidGraphException(
+                "The factors do not form a Bayesian network: each factor "
+                "must introduce one variable given variables that other "
+                "factors introduce, without cycles"
+            )
     return original_factors
-- 
2.43.0


From 48abfaf1049a0d60970a786571d84b8fab38371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 31/31] fix: refuse two factors of one name instead of dropping
 one silently

---
 causalnex/ebaybbn/bbn.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 49cea0f..d59d825 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -45,7 +45,11 @@ from io import StringIO
 from itertools import combinations, product
 from random import choice, random
 
-from .exceptions import VariableNotInGraphError, VariableValueNotInDomainError
+from .exceptions import (
+    InvalidGraphException,
+    VariableNotInGraphError,
+    VariableValueNotInDomainError,
+)
 from .graph import Node, UndirectedGraph, UndirectedNode, connect
 from .utils import get_args, get_original_factors
 
@@ -746,6 +750,10 @@ def build_bbn(*args, **kwds):
         factor_args = get_args(factor)
         variables.update(factor_args)
         bbn_node = BBNNode(factor)
+        if factor_nodes.get(factor.__name__, bbn_node).func != factor:
+            raise InvalidGraphException(
+                "Two factors are named {}".format(factor.__name__)
+            )
         factor_nodes[factor.__name__] = bbn_node
 
     # Now lets create the connections
-- 
2.43.0

