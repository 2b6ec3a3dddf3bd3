From 7d2caac14e5a1554b864b90219dbadb90b7ed9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:48 +0000
Subject: [PATCH 01/27] fix: build the dynamics constraint of every storage of
 a node, not only the first

---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From 5664ad548986000289a1543c75c8e4d4129425ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:54 +0000
Subject: [PATCH 02/27] fix: a link from a node to itself must not create
 energy

---
 hadar/optimizer/lp/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..482514e 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -279,7 +279,10 @@ class AdequacyBuilder:
         """
         # Apply import link in adequacy
         for (t, net, src, dest), var in self.importations.items():
-            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
+            # A link from a node to itself is an export and an import, therefore it's neutral
+            self.constraints[(t, net, dest)].SetCoefficient(
+                var, 1 if src != dest else 0
+            )
 
 
 class StorageBuilder:
-- 
2.43.0


From b424fcc6f0a5e25cd910396f13549cfbb60e062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:00 +0000
Subject: [PATCH 03/27] fix: give each storage its own rows in the analyzer
 storage table

---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..adb5653 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From 90eb9052fbff5d8ebe99633a82ba5664d6bc9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:07 +0000
Subject: [PATCH 04/27] fix: size the analyzer destination converter table by
 converters, not by sources

---
 hadar/analyzer/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index adb5653..acbccfe 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,7 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
+        elements = len(study.converters)
         size = h * scn * elements
 
         dest_conv = {
-- 
2.43.0


From bf4bd84433c8ac59ac2c5cd032a65f94ca4f00b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:12 +0000
Subject: [PATCH 05/27] fix: give each converter source its own rows and
 scenarios in the analyzer table

---
 hadar/analyzer/result.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index acbccfe..b96ed12 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -436,10 +436,12 @@ class ResultAnalyzer:
             slices = src_conv.index[s:e]
             src_conv.loc[slices, "name"] = v.name
             src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
+            src_conv.loc[slices, "scn"] = np.tile(
+                np.repeat(np.arange(scn), h), src_size
+            )
 
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
-- 
2.43.0


From 5bef9d0e596046d01efe6831d70be722f43ac82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:08 +0000
Subject: [PATCH 06/27] fix: give plain floats to the solver, integer or
 float32 data crashed it

---
 hadar/optimizer/lp/mapper.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/hadar/optimizer/lp/mapper.py b/hadar/optimizer/lp/mapper.py
index 19db981..086bfbc 100644
--- a/hadar/optimizer/lp/mapper.py
+++ b/hadar/optimizer/lp/mapper.py
@@ -60,8 +60,8 @@ class InputMapper:
         consumptions = [
             LPConsumption(
                 name=c.name,
-                cost=c.cost[scn, t],
-                quantity=c.quantity[scn, t],
+                cost=float(c.cost[scn, t]),
+                quantity=float(c.quantity[scn, t]),
                 variable=self.solver.NumVar(
                     0, float(c.quantity[scn, t]), name="lol=%s %s" % (c.name, suffix)
                 ),
@@ -72,8 +72,8 @@ class InputMapper:
         productions = [
             LPProduction(
                 name=p.name,
-                cost=p.cost[scn, t],
-                quantity=p.quantity[scn, t],
+                cost=float(p.cost[scn, t]),
+                quantity=float(p.quantity[scn, t]),
                 variable=self.solver.NumVar(
                     0, float(p.quantity[scn, t]), "prod=%s %s" % (p.name, suffix)
                 ),
@@ -84,12 +84,12 @@ class InputMapper:
         storages = [
             LPStorage(
                 name=s.name,
-                flow_in=s.flow_in[scn, t],
-                flow_out=s.flow_out[scn, t],
-                eff=s.eff[scn, t],
-                capacity=s.capacity[scn, t],
-                init_capacity=s.init_capacity,
-                cost=s.cost[scn, t],
+                flow_in=float(s.flow_in[scn, t]),
+                flow_out=float(s.flow_out[scn, t]),
+                eff=float(s.eff[scn, t]),
+                capacity=float(s.capacity[scn, t]),
+                init_capacity=float(s.init_capacity),
+                cost=float(s.cost[scn, t]),
                 var_capacity=self.solver.NumVar(
                     0,
                     float(s.capacity[scn, t]),
@@ -112,9 +112,9 @@ class InputMapper:
         links = [
             LPLink(
                 dest=l.dest,
-                cost=l.cost[scn, t],
+                cost=float(l.cost[scn, t]),
                 src=node,
-                quantity=l.quantity[scn, t],
+                quantity=float(l.quantity[scn, t]),
                 variable=self.solver.NumVar(
                     0, float(l.quantity[scn, t]), "link=%s %s" % (l.dest, suffix)
                 ),
@@ -141,14 +141,14 @@ class InputMapper:
         suffix = "at t=%d for scn=%d" % (t, scn)
         v = self.study.converters[name]
 
-        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
+        src_ratios = {k: float(v[scn, t]) for k, v in v.src_ratios.items()}
         return LPConverter(
             name=v.name,
             src_ratios=src_ratios,
             dest_network=v.dest_network,
             dest_node=v.dest_node,
-            cost=v.cost[scn, t],
-            max=v.max[scn, t],
+            cost=float(v.cost[scn, t]),
+            max=float(v.max[scn, t]),
             var_flow_src={
                 src: self.solver.NumVar(
                     0,
-- 
2.43.0


From 29eca31a67fdc196872abb0576893c52ea63dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:14 +0000
Subject: [PATCH 07/27] fix: handle slices without start or without end in
 analyzer queries

---
 hadar/analyzer/result.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index b96ed12..4d6ea68 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -131,13 +131,29 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
+        self.start, self.step = None, None  # only for slice without end
         if isinstance(index, slice):
             start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
             step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+            if index.stop is None:
+                self.start, self.step = start, step
+                index = None
+            else:
+                index = tuple(range(start, index.stop, step))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        """
+        Filter dataframe. Same as parent, and handle slice without end.
+
+        :param df: dataframe to filter
+        :return: Series of boolean to set row to keep
+        """
+        if self.start is None:
+            return Index.filter(self, df)
+        rank = df[self.column] - self.start
+        return (rank >= 0) & (rank % self.step == 0)
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
-- 
2.43.0


From 6b4cefaa96b9bddf4cb2288ec515ab621e1b60d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:19 +0000
Subject: [PATCH 08/27] fix: analyzer queries that select one row or nothing
 crashed

---
 hadar/analyzer/result.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 4d6ea68..2171a45 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -61,7 +61,7 @@ class Index(Generic[T]):
 
         :return: if index filter only one value return True else False
         """
-        return not self.all and len(self.index) <= 1
+        return not self.all and len(self.index) == 1
 
 
 class ProdIndex(Index[str]):
@@ -487,7 +487,12 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        # Keep always last level to return a table even if query selects only one row
+        if (
+            len(indexes) > 1
+            and indexes[0].is_alone()
+            and indexes[0].index[0] in df.index
+        ):
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From e93432b32efcaa96d2cf93e7dae582b75f5f42f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:26 +0000
Subject: [PATCH 09/27] fix: a partial analyzer query can be used to start many
 queries

---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 2171a45..249aad2 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -826,8 +826,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = self.indexes + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(deepcopy(indexes), self.analyzer)
-- 
2.43.0


From b1f08c2090acf2d79323b46c23e7688bf0bb0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 10/27] fix: keep array division rule for converter source
 bounds

---
 hadar/optimizer/lp/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/mapper.py b/hadar/optimizer/lp/mapper.py
index 086bfbc..76ecbba 100644
--- a/hadar/optimizer/lp/mapper.py
+++ b/hadar/optimizer/lp/mapper.py
@@ -141,10 +141,10 @@ class InputMapper:
         suffix = "at t=%d for scn=%d" % (t, scn)
         v = self.study.converters[name]
 
-        src_ratios = {k: float(v[scn, t]) for k, v in v.src_ratios.items()}
+        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
         return LPConverter(
             name=v.name,
-            src_ratios=src_ratios,
+            src_ratios={k: float(r) for k, r in src_ratios.items()},
             dest_network=v.dest_network,
             dest_node=v.dest_node,
             cost=float(v.cost[scn, t]),
-- 
2.43.0


From 8a59942232a8da04bf55714aff7dd961a682f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:17 +0000
Subject: [PATCH 11/27] fix: reject a study element as soon as one of its
 values is out of range

---
 hadar/optimizer/domain/input.py   | 12 ++++++------
 hadar/optimizer/domain/numeric.py |  6 ++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..abc0aba 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -342,7 +342,7 @@ class Study(JSON):
             raise ValueError("link destination must be unique on a node")
 
         quantity = self.factory.create(quantity)
-        if quantity < 0:
+        if not quantity >= 0:
             raise ValueError("Link quantity must be positive")
 
         cost = self.factory.create(cost)
@@ -369,7 +369,7 @@ class Study(JSON):
             raise ValueError("production name must be unique on a node")
 
         prod.quantity = self.factory.create(prod.quantity)
-        if prod.quantity < 0:
+        if not prod.quantity >= 0:
             raise ValueError("Production quantity must be positive")
 
         prod.cost = self.factory.create(prod.cost)
@@ -382,7 +382,7 @@ class Study(JSON):
             raise ValueError("consumption name must be unique on a node")
 
         cons.quantity = self.factory.create(cons.quantity)
-        if cons.quantity < 0:
+        if not cons.quantity >= 0:
             raise ValueError("Consumption quantity must be positive")
 
         cons.cost = self.factory.create(cons.cost)
@@ -394,15 +394,15 @@ class Study(JSON):
 
         store.flow_in = self.factory.create(store.flow_in)
         store.flow_out = self.factory.create(store.flow_out)
-        if store.flow_in < 0 or store.flow_out < 0:
+        if not (store.flow_in >= 0 and store.flow_out >= 0):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
-        if store.capacity < 0 or store.init_capacity < 0:
+        if not store.capacity >= 0 or store.init_capacity < 0:
             raise ValueError("storage capacities must be positive")
 
         store.eff = self.factory.create(store.eff)
-        if store.eff < 0 or store.eff > 1:
+        if not (store.eff >= 0 and store.eff <= 1):
             raise ValueError("storage efficiency must be in ]0, 1[")
 
         store.cost = self.factory.create(store.cost)
diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 18291f9..398c1ca 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -94,6 +94,12 @@ class NumpyNumericalValue(NumericalValue[np.ndarray], ABC):
     def __gt__(self, other) -> bool:
         return np.all(self.value > other)
 
+    def __le__(self, other) -> bool:
+        return np.all(self.value <= other)
+
+    def __ge__(self, other) -> bool:
+        return np.all(self.value >= other)
+
 
 class MatrixNumericalValue(NumpyNumericalValue):
     """
-- 
2.43.0


From c378b470138582be5d334859866f7929e761e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:23 +0000
Subject: [PATCH 12/27] fix: a node selector keeps its node when an other node
 is selected

---
 hadar/optimizer/domain/input.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index abc0aba..de59216 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -464,9 +464,9 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
-        self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        selector = {"network": self.selector["network"], "node": name}
+        self.study.add_node(network=selector["network"], node=name)
+        return NodeFluentAPISelector(self.study, selector)
 
     def link(
         self,
-- 
2.43.0


From a2a12f54d01b4a1a9c4890884700f8b8e7683735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:29 +0000
Subject: [PATCH 13/27] fix: a rejected converter leaves the study unchanged

---
 hadar/optimizer/domain/input.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index de59216..f9c97e9 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -418,12 +418,16 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
-        if (network, node) in self.converters[name].src_ratios:
+        if (
+            name in self.converters
+            and (network, node) in self.converters[name].src_ratios
+        ):
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
         ratio = self.factory.create(ratio)
+        self._add_converter(name=name)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -434,7 +438,11 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        if (
+            name in self.converters
+            and self.converters[name].dest_network
+            and self.converters[name].dest_node
+        ):
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
@@ -442,10 +450,13 @@ class Study(JSON):
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+        self._add_converter(name=name)
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -522,7 +533,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -680,7 +690,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From 81482eacd357c8e6f63a2d7c3dd5d380dc3bed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:34 +0000
Subject: [PATCH 14/27] fix: raise an error when the solver finds no solution
 instead of a result with zeros

---
 hadar/optimizer/lp/optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 482514e..11197db 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -407,7 +407,14 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in [
+        Solver.INFEASIBLE,
+        Solver.UNBOUNDED,
+        Solver.ABNORMAL,
+        Solver.NOT_SOLVED,
+    ]:
+        raise ValueError("No solution found for scenario %d" % i_scn)
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From a25260e232da12707d5f1d93c8167de687d63bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:40 +0000
Subject: [PATCH 15/27] fix: reading a result from json must not change the
 json document

---
 hadar/optimizer/domain/output.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..7045f43 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -273,6 +273,7 @@ class Result(JSON):
 
     @staticmethod
     def from_json(dict, factory=None):
+        dict = deepcopy(dict)
         return Result(
             networks={
                 k: OutputNetwork.from_json(v) for k, v in dict["networks"].items()
-- 
2.43.0


From c77590a37ed64efd83d974e022a3c000f7ec759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:06 +0000
Subject: [PATCH 16/27] fix: take seed 0 into account in Fault

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..cab849b 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -512,7 +512,7 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
+        if self.seed is not None:
             np.random.seed(self.seed)
 
         horizon = scenario.shape[0]
-- 
2.43.0


From 85a64c1ff9b9c978c511b534642803d07c9db9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:11 +0000
Subject: [PATCH 17/27] fix: standardize columns on a copy, not on user data

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index cab849b..2ac218b 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -309,6 +309,7 @@ class Stage(ABC):
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
             columns = timeline.columns.values
+            timeline = timeline.copy()
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
         return timeline
-- 
2.43.0


From f02fc013ac844a8e1810a1908035a8bac940ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 18/27] fix: keep time index and unused columns in FocusStage

---
 hadar/workflow/pipeline.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 2ac218b..ac92294 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -383,16 +383,13 @@ class FocusStage(Stage, ABC):
         """
         scenarios = timeline.columns.get_level_values(0).unique()
 
-        n_scn = len(scenarios)
-        n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
-
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
-
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
-        for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
-        return output
+        output = {}
+        for scn in scenarios:
+            data = self._process_scenarios(scn, timeline[scn].copy())
+            # Stage outputs first, then columns not used by stage
+            others = [name for name in data.columns if name not in self.plug.outputs]
+            output[scn] = data.reindex(columns=list(self.plug.outputs) + others)
+        return pd.concat(output, axis=1)
 
 
 class Clip(Stage):
-- 
2.43.0


From 6b7b504cf138a92abf0e28bbf3a3e032cc90a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:22 +0000
Subject: [PATCH 19/27] fix: RepeatScenario keeps time index and labels columns
 in any order

---
 hadar/workflow/pipeline.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index ac92294..e5405d5 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -547,10 +547,14 @@ class RepeatScenario(Stage):
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
         data = np.tile(timeline.values, self.n)
 
-        n_scn = Stage.get_scenarios(timeline).size
-        names = Stage.get_names(timeline)
-        index = Stage.build_multi_index(
-            scenarios=np.arange(0, n_scn * self.n), names=names
+        scenarios = list(Stage.get_scenarios(timeline))
+        n_scn = len(scenarios)
+        index = MultiIndex.from_tuples(
+            [
+                (i * n_scn + scenarios.index(scn), name)
+                for i in range(self.n)
+                for scn, name in timeline.columns
+            ]
         )
 
-        return pd.DataFrame(data=data, columns=index)
+        return pd.DataFrame(data=data, columns=index, index=timeline.index)
-- 
2.43.0


From 99a7406f0c60bd09a0db4833ce315c9a426ec5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:28 +0000
Subject: [PATCH 20/27] fix: linking stages must not change the stages nor the
 pipeline linked

---
 hadar/workflow/pipeline.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index e5405d5..29b7a23 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -149,8 +149,8 @@ class RestrictedPlug(Plug):
             return self
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]
+        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
 
 
 class Pipeline:
@@ -171,7 +171,7 @@ class Pipeline:
         # Verify stage linkable capacity
         for i in range(0, len(stages) - 1):
             curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+            if not self.plug.linkable_to(next.plug):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
                     % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
@@ -195,9 +195,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From d00f9f850692d54b446776c21c3a82ce457a6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:34 +0000
Subject: [PATCH 21/27] fix: drop all columns except to_shuffler whatever their
 names, and chain add_pipeline

---
 hadar/workflow/shuffler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..f346c74 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -78,7 +78,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if drop_columns.size > 0:
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
@@ -134,6 +134,7 @@ class Shuffler:
         pipeline.assert_to_shuffler()
 
         self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)
+        return self
 
     def shuffle(self, nb_scn):
         """
-- 
2.43.0


From 0a356907dfb2b613b98ac69c2c0c6c157e18d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:54 +0000
Subject: [PATCH 22/27] fix: shuffle each timeline independently

---
 hadar/workflow/shuffler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index f346c74..4903aac 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -5,6 +5,7 @@
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import multiprocessing
+import os
 
 import numpy as np
 import pandas as pd
@@ -91,6 +92,8 @@ def compute(params):
     :return: (name, sampling)
     """
     tl, nb, name = params
+    # Workers start with the same random state. Reseed to not toss the same scenarios for each timeline
+    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))
     return name, tl.sample(nb)
 
 
-- 
2.43.0


From d235baaee8dc893f5dabba7c3a0e0fc082878da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:19 +0000
Subject: [PATCH 23/27] fix: plot only the asked scenario in converter gaussian

---
 hadar/viewer/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/viewer/abc.py b/hadar/viewer/abc.py
index 5154d47..24e01bf 100644
--- a/hadar/viewer/abc.py
+++ b/hadar/viewer/abc.py
@@ -644,8 +644,8 @@ class SrcConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .to_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
@@ -762,8 +762,8 @@ class DestConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .from_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
-- 
2.43.0


From 2e1e5499ae58c0928da177d2d1b94a804701f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:24 +0000
Subject: [PATCH 24/27] fix: rac matrix without positive or without negative
 values crashed

---
 hadar/viewer/html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/viewer/html.py b/hadar/viewer/html.py
index e791890..1e20a06 100644
--- a/hadar/viewer/html.py
+++ b/hadar/viewer/html.py
@@ -231,8 +231,8 @@ class HTMLElementPlotting(ABCElementPlotting):
 
     def matrix(self, data: np.ndarray, title):
         def sdt(x):
-            x[x > 0] /= np.max(x[x > 0])
-            x[x < 0] /= -np.min(x[x < 0])
+            x[x > 0] /= np.max(x[x > 0], initial=0)
+            x[x < 0] /= -np.min(x[x < 0], initial=0)
             return x
 
         fig = go.Figure(
-- 
2.43.0


From 93fb8b81aee163728091960c4f674562e5b8a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:46 +0000
Subject: [PATCH 25/27] fix: refuse arrays without dimension with the same
 error as other wrong shapes

---
 hadar/optimizer/domain/numeric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 398c1ca..3157b2a 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -210,8 +210,8 @@ class NumericalValueFactory:
                 )
 
             # If any size pattern matches, raise error on quantity size given
-            horizon_given = value.shape[0] if len(value.shape) == 1 else value.shape[1]
-            sc_given = 1 if len(value.shape) == 1 else value.shape[0]
+            horizon_given = value.shape[-1] if len(value.shape) > 0 else 1
+            sc_given = 1 if len(value.shape) <= 1 else value.shape[0]
             raise ValueError(
                 "Array must be: a number, an array like (horizon, ) or (nb_scn, 1) or (nb_scn, horizon). "
                 "In your case horizon specified is %d and actual is %d. "
-- 
2.43.0


From 7915c19acb20122ed182ba80457231ce52942335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:04 +0000
Subject: [PATCH 26/27] fix: converter queries crashed on studies without
 converter

---
 hadar/analyzer/result.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 249aad2..577ffd6 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -412,6 +412,8 @@ class ResultAnalyzer:
             "flow": np.empty(size, dtype=float),
             "cost": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         dest_conv = pd.DataFrame(data=dest_conv)
 
@@ -423,8 +425,8 @@ class ResultAnalyzer:
             dest_conv.loc[slices, "network"] = v.dest_network
             dest_conv.loc[slices, "node"] = v.dest_node
             dest_conv.loc[slices, "flow"] = result.converters[name].flow_dest.flatten()
-            dest_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+            dest_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn)
+            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn, dtype=float), h)
 
         return dest_conv
 
@@ -442,6 +444,8 @@ class ResultAnalyzer:
             "ratio": np.empty(size, dtype=float),
             "flow": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         src_conv = pd.DataFrame(data=src_conv)
 
@@ -451,9 +455,11 @@ class ResultAnalyzer:
             e = s + h * scn * src_size
             slices = src_conv.index[s:e]
             src_conv.loc[slices, "name"] = v.name
-            src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
+            src_conv.loc[slices, "t"] = np.tile(
+                np.arange(h, dtype=float), scn * src_size
+            )
             src_conv.loc[slices, "scn"] = np.tile(
-                np.repeat(np.arange(scn), h), src_size
+                np.repeat(np.arange(scn, dtype=float), h), src_size
             )
 
             for net, node in v.src_ratios.keys():
-- 
2.43.0


From c17647656a07c0cad5043be0cf31db29ed043660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:10 +0000
Subject: [PATCH 27/27] fix: default sampler must not send its random state to
 shuffler workers

---
 hadar/workflow/shuffler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 4903aac..04e883f 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -9,13 +9,20 @@ import os
 
 import numpy as np
 import pandas as pd
-from numpy.random import randint
 
 from hadar.workflow.pipeline import Pipeline, TO_SHUFFLER, Stage
 
 __all__ = ["Shuffler", "Timeline"]
 
 
+def randint(low, high, nb):
+    """
+    Default sampler. Plain function, numpy one is sent to workers with a copy of its random state,
+    so that each timeline would be shuffled in the same way.
+    """
+    return np.random.randint(low, high, nb)
+
+
 class Timeline:
     """
     Manage data used to generate timeline. Perform sampling too.
-- 
2.43.0

