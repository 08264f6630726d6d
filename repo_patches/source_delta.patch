From 0c6f696456fa06b43b5cc563de7263189f28eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:56 +0000
Subject: [PATCH 01/52] fix: cost initial routes with the vehicle type they are
 assigned to

---
 vrpy/vrp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..8636509 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -955,12 +955,6 @@ class VehicleRoutingProblem:
         for route_id, r in enumerate(self._initial_routes, start=1):
             total_cost = 0
             G = DiGraph(name=route_id)
-            edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
                     if (
@@ -975,6 +969,12 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            edges = list(zip(r[:-1], r[1:]))
+            for (i, j) in edges:
+                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                G.add_edge(i, j, cost=edge_cost)
+                total_cost += edge_cost
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
-- 
2.43.0


From 11779ab432ca1380d6bc3fe2d31ab20102171865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:23 +0000
Subject: [PATCH 02/52] fix: take collected amounts into account when checking
 loads against capacities

---
 vrpy/checks.py | 10 +++++++++-
 vrpy/vrp.py    | 21 +++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index e4fbf6d..ce4205a 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -188,7 +188,10 @@ def check_consistency(
 
 
 def check_feasibility(
-    load_capacity: list = None, G: DiGraph = None, duration: int = None
+    load_capacity: list = None,
+    G: DiGraph = None,
+    duration: int = None,
+    distribution_collection: bool = False,
 ):
     """Checks basic problem feasibility."""
 
@@ -199,6 +202,11 @@ def check_feasibility(
                     "Demand %s at node %s larger than max capacity %s."
                     % (G.nodes[v]["demand"], v, max(load_capacity))
                 )
+            if distribution_collection and G.nodes[v]["collect"] > max(load_capacity):
+                raise ValueError(
+                    "Collect %s at node %s larger than max capacity %s."
+                    % (G.nodes[v]["collect"], v, max(load_capacity))
+                )
     if duration:
         for v in G.nodes():
             if v not in ["Source", "Sink"]:
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 8636509..f5f90e5 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -459,7 +459,10 @@ class VehicleRoutingProblem:
         )
         # Check feasibility
         check_feasibility(
-            load_capacity=self.load_capacity, G=self.G, duration=self.duration
+            load_capacity=self.load_capacity,
+            G=self.G,
+            duration=self.duration,
+            distribution_collection=self.distribution_collection,
         )
         self.num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
             periodic=self.periodic, num_vehicles=self.num_vehicles
@@ -957,10 +960,7 @@ class VehicleRoutingProblem:
             G = DiGraph(name=route_id)
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
-                    if (
-                        sum(self.G.nodes[v]["demand"] for v in r)
-                        <= self.load_capacity[k]
-                    ):
+                    if self._get_max_load(r) <= self.load_capacity[k]:
                         G.graph["vehicle_type"] = k
                         break
             else:
@@ -982,6 +982,15 @@ class VehicleRoutingProblem:
                 else:
                     self._routes_with_node[v] = [G]
 
+    def _get_max_load(self, route):
+        """Returns the largest load on board along a route."""
+        load = max_load = sum(self._H.nodes[v]["demand"] for v in route)
+        if self.distribution_collection:
+            for v in route:
+                load += self._H.nodes[v]["collect"] - self._H.nodes[v]["demand"]
+                max_load = max(max_load, load)
+        return max_load
+
     def _lock(self):
         """
         Processes preassigned routes and edges.
@@ -1146,7 +1155,7 @@ class VehicleRoutingProblem:
                 for k in range(self._vehicle_types):
                     # If different vehicles, the cheapest feasible one is accounted for
                     cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = sum(self._H.nodes[i]["demand"] for i in route)
+                    load = self._get_max_load(route)
                     if cost < best_cost:
                         if self.load_capacity:
                             if load <= self.load_capacity[k]:
-- 
2.43.0


From be85e9bdb25f881ae9e59f182fe6e705d9a64de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:23 +0000
Subject: [PATCH 03/52] fix: report actual truck load with simultaneous
 distribution and collection

---
 vrpy/vrp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index f5f90e5..c56394d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -326,12 +326,12 @@ class VehicleRoutingProblem:
             load[i] = {}
             amount = 0
             if self.distribution_collection:
-                k = self._best_routes_vehicle_type[i]
-                amount += self.load_capacity[k]
+                # the truck leaves the depot with everything it distributes
+                amount += sum(self._H.nodes[v]["demand"] for v in self.best_routes[i])
             for v in self.best_routes[i]:
                 amount += self._H.nodes[v]["demand"]
                 if self.distribution_collection:
-                    # in this case, load = Q + collect - demand
+                    # in this case, load = initial load + collect - demand
                     amount += (
                         self._H.nodes[v]["collect"] - 2 * self._H.nodes[v]["demand"]
                     )
-- 
2.43.0


From a0215d18af481a762a12475762e768f5cae11fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:23 +0000
Subject: [PATCH 04/52] fix: count service times in the duration of routes
 priced with cspy and in the feasibility check

---
 vrpy/checks.py          | 4 +++-
 vrpy/subproblem_cspy.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index ce4205a..a4829c6 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -216,7 +216,9 @@ def check_feasibility(
                 shortest_path_from = shortest_path_length(
                     G, source=v, target="Sink", weight="time"
                 )
-                shortest_trip = shortest_path_from + shortest_path_to
+                shortest_trip = (
+                    shortest_path_from + shortest_path_to + G.nodes[v]["service_time"]
+                )
                 if shortest_trip > duration:
                     raise ValueError(
                         "Node %s not reachable with duration constraints" % v
diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..521628e 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -364,7 +364,8 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From bf53015be9fe02b7e3f79b1ebdb4143ec2e374bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:06 +0000
Subject: [PATCH 05/52] fix: greedy pricing respects service times and closes
 routes within duration

---
 vrpy/subproblem_greedy.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..3270ff7 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -124,11 +124,15 @@ class _SubProblemGreedy(_SubProblemBase):
         self._load += self.sub_G.nodes[self._new_node]["demand"]
         if forward:
             self._weight += self.sub_G.edges[self._last_node, self._new_node]["weight"]
-            self._time += self.sub_G.edges[self._last_node, self._new_node]["time"]
+            self._time += self._edge_time(self._last_node, self._new_node)
             self._current_path.append(self._new_node)
             if self._stops == self.num_stops and self._new_node != "Sink":
                 # Finish path
-                if self._new_node in self.sub_G.predecessors("Sink"):
+                self._last_node = self._new_node
+                if self._new_node in self.sub_G.predecessors("Sink") and (
+                    not self.duration or self._check_duration("Sink", forward)
+                ):
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
                     self._current_path.append("Sink")
                 else:
                     self._new_node = False
@@ -137,11 +141,15 @@ class _SubProblemGreedy(_SubProblemBase):
                 return False
         else:
             self._weight += self.sub_G.edges[self._new_node, self._last_node]["weight"]
-            self._time += self.sub_G.edges[self._new_node, self._last_node]["time"]
+            self._time += self._edge_time(self._new_node, self._last_node)
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                self._last_node = self._new_node
+                if self._new_node in self.sub_G.successors("Source") and (
+                    not self.duration or self._check_duration("Source", forward)
+                ):
+                    self._weight += self.sub_G.edges["Source", self._new_node]["weight"]
                     self._current_path.insert(0, "Source")
                 else:
                     self._new_node = False
@@ -181,15 +189,21 @@ class _SubProblemGreedy(_SubProblemBase):
         """Checks time constraint."""
         if forward:
             return (
-                self._time + self.sub_G.edges[self._last_node, v]["time"]
+                self._time + self._edge_time(self._last_node, v)
                 <= self.duration
             )
         else:
             return (
-                self._time + self.sub_G.edges[v, self._last_node]["time"]
+                self._time + self._edge_time(v, self._last_node)
                 <= self.duration
             )
 
+    def _edge_time(self, i, j):
+        """Travel time from i to j plus service time at i."""
+        return self.sub_G.edges[i, j]["time"] + self.sub_G.nodes[i].get(
+            "service_time", 0
+        )
+
     """
     NOT IMPLEMENTED YET
     def _check_time_windows(self, v, forward):
-- 
2.43.0


From 6f57ee3042c02231cc8a3f4ee5754d94ab932491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:06 +0000
Subject: [PATCH 06/52] fix: Clarke & Wright duration when merging next to the
 Source with asymmetric times

---
 vrpy/clarke_wright.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..a2a4e51 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._added_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,23 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _added_time(self, existing_node, new_node, depot):
+        """Time added to a route if new_node is merged between existing_node and depot."""
+        if depot == "Sink":
+            return (
+                self.G.edges[existing_node, new_node]["time"]
+                + self.G.edges[new_node, "Sink"]["time"]
+                + self.G.nodes[new_node]["service_time"]
+                - self.G.edges[existing_node, "Sink"]["time"]
+            )
+        return (
+            self.G.edges["Source", new_node]["time"]
+            + self.G.nodes[new_node]["service_time"]
+            + self.G.edges[new_node, existing_node]["time"]
+            - self.G.edges["Source", existing_node]["time"]
+        )
+
+    def _constraints_met(self, existing_node, new_node, depot="Sink"):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +184,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._added_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -211,7 +219,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
-- 
2.43.0


From 45ea45a666939d67e5994eed5e322c17ea4a4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:07 +0000
Subject: [PATCH 07/52] fix: apply the Exact pricing strategy announced for
 pickup and delivery

---
 vrpy/vrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c56394d..d3a2b42 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -457,6 +457,8 @@ class VehicleRoutingProblem:
             pricing_strategy=self._pricing_strategy,
             G=self.G,
         )
+        if self.pickup_delivery:
+            self._pricing_strategy = "Exact"
         # Check feasibility
         check_feasibility(
             load_capacity=self.load_capacity,
-- 
2.43.0


From 8e8a67c42093cb8157bf44ebe9c33a39270a3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 08/52] fix: fall back to exact pricing when the
 hyper-heuristic's strategy finds no column

---
 vrpy/vrp.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index d3a2b42..c316e04 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -642,10 +642,6 @@ class VehicleRoutingProblem:
                 more_columns = self._attempt_solve_best_edges2(
                     vehicle=vehicle, duals=duals, route=route
                 )
-            elif pricing_strategy == "Exact":
-                more_columns = self._attempt_solve_exact(
-                    vehicle=vehicle, duals=duals, route=route
-                )
         # old approach
         else:
             if pricing_strategy == "BestPaths":
@@ -660,10 +656,11 @@ class VehicleRoutingProblem:
                 more_columns = self._attempt_solve_best_edges2(
                     vehicle=vehicle, duals=duals, route=route
                 )
-            if pricing_strategy == "Exact" or not more_columns:
-                more_columns = self._attempt_solve_exact(
-                    vehicle=vehicle, duals=duals, route=route
-                )
+        # The exact algorithm is run if the heuristic fails to find a column
+        if pricing_strategy == "Exact" or not more_columns:
+            more_columns = self._attempt_solve_exact(
+                vehicle=vehicle, duals=duals, route=route
+            )
         return more_columns
 
     def _attempt_solve_best_paths(self, vehicle=None, duals=None, route=None):
-- 
2.43.0


From 14ffba5b23cd83b8bcb1d08c2c622b0181aac23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:44 +0000
Subject: [PATCH 09/52] fix: do not limit cspy routes to half of the nodes when
 no other limit is set

---
 vrpy/subproblem_cspy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 521628e..f9d870a 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,5 +1,4 @@
 import logging
-from math import floor
 
 from numpy import zeros
 from networkx import DiGraph, add_path
@@ -172,7 +171,7 @@ class _SubProblemCSPY(_SubProblemBase):
         # Add upper bounds for mono, stops, load and time, and time windows
         total_demand = sum([self.sub_G.nodes[v]["demand"] for v in self.sub_G.nodes()])
         self.max_res = [
-            floor(len(self.sub_G.nodes()) / 2),  # stop/mono
+            len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
             sum(
                 [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
-- 
2.43.0


From 94d9d436bf5d806593e152c136369e636f9c40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:23 +0000
Subject: [PATCH 10/52] fix: a cspy route already known for another vehicle
 type is a new column

---
 vrpy/subproblem_cspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index f9d870a..4bbf998 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -269,7 +269,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and r.graph["vehicle_type"] == self.vehicle_type
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
-- 
2.43.0


From 870593eaa05dcece4c15d502a01195875eff673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:16 +0000
Subject: [PATCH 11/52] fix: allow a route to be run several times when nodes
 are visited periodically

---
 vrpy/master_solve_pulp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..502608b 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -126,7 +126,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
             if val is not None and val > 0:
-                best_routes.append(r)
+                # a route may be run several times if nodes are visited periodically
+                best_routes += [r] * max(1, round(val))
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -319,7 +320,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            upBound=self.periodic if self.periodic else 1,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From af1e35815ef5cb51ec19149f1ae650994268bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:16 +0000
Subject: [PATCH 12/52] fix: schedule at most one visit per day for customers
 without demand

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..a2eb8e2 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -84,7 +84,7 @@ class _Schedule:
         # at most one visit per day per customer
         for t in range(self.time_span):
             for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
-- 
2.43.0


From 33e529e9dd9da4179a20d2df0430de16de4c073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:16 +0000
Subject: [PATCH 13/52] fix: solving a problem again starts from its input
 instead of the state of the previous call

---
 vrpy/vrp.py | 52 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c316e04..2560d69 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1,5 +1,6 @@
 import sys
 import logging
+from copy import deepcopy
 from time import time
 from typing import List, Union
 
@@ -236,26 +237,37 @@ class VehicleRoutingProblem:
         self._max_iter = max_iter
         self._run_exact = run_exact
         self._heuristic_only = heuristic_only
+        self.hyper_heuristic = None
         if self._pricing_strategy == "Hyper":
             self.hyper_heuristic = _HyperHeuristic()
         self._start_time = time()
-        if preassignments:
-            self._preassignments = preassignments
-        if initial_routes:
-            self._initial_routes = initial_routes
-        # If only one type of vehicle, some formatting is done
-        if not self.mixed_fleet:
-            self._format()
-        # Pre-processing
-        self._pre_solve()
-        if self._heuristic_only:
-            # return solution found with Clarke & Wright heuristic
-            self._solve_with_clarke_wright()
-        else:
-            # Initialization
-            self._initialize(solver)
-            # Column generation procedure
-            self._solve(dive, solver)
+        # Forget everything about previous calls
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
+        self._dropped_nodes = []
+        self._best_routes_as_graphs = []
+        self._preassignments = preassignments if preassignments else []
+        self._initial_routes = initial_routes if initial_routes else []
+        # Work on a copy of the graph, as the input may be solved again
+        G, num_stops, num_vehicles = self.G, self.num_stops, self.num_vehicles
+        self.G = deepcopy(G)
+        try:
+            # If only one type of vehicle, some formatting is done
+            if not self.mixed_fleet:
+                self._format()
+            # Pre-processing
+            self._pre_solve()
+            if self._heuristic_only:
+                # return solution found with Clarke & Wright heuristic
+                self._solve_with_clarke_wright()
+            else:
+                # Initialization
+                self._initialize(solver)
+                # Column generation procedure
+                self._solve(dive, solver)
+        finally:
+            self.G, self.num_stops, self.num_vehicles = G, num_stops, num_vehicles
 
     @property
     def best_routes_type(self):
@@ -383,8 +395,8 @@ class VehicleRoutingProblem:
         # Check arrival times
         for k1, v1 in self.arrival_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
-                assert v2 <= self.G.nodes[k2]["upper"]
+                assert self._H.nodes[k2]["lower"] <= v2
+                assert v2 <= self._H.nodes[k2]["upper"]
 
     @property
     def departure_time(self):
@@ -412,7 +424,7 @@ class VehicleRoutingProblem:
         # Check departure times
         for k1, v1 in self.departure_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
+                assert self._H.nodes[k2]["lower"] <= v2
                 # Upper TW should not be checked as lower + service_time > upper
                 # in many cases. Also not enforced at the subproblem level.
                 # assert v2 <= self.G.nodes[k2]["upper"]
-- 
2.43.0


From a8923c123ca13d19b545aad05475d6990c88a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:12 +0000
Subject: [PATCH 14/52] fix: start with an artificial variable when all
 vehicles must be used

---
 vrpy/master_solve_pulp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 502608b..c8d8d82 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -363,6 +363,15 @@ class _MasterSolvePulp(_MasterProblemBase):
                 cat=pulp.LpContinuous,
                 e=((-1) * self.vehicle_bound_constrs[key] + 1e10 * self.objective),
             )
+            # if all vehicles are used, there may also be too few initial routes
+            if self.use_all_vehicles:
+                self.dummy_bound["unused_%s" % key] = pulp.LpVariable(
+                    "artificial_bound_unused_%s" % key,
+                    lowBound=0,
+                    upBound=None,
+                    cat=pulp.LpContinuous,
+                    e=(self.vehicle_bound_constrs[key] + 1e10 * self.objective),
+                )
 
     def _add_drop_variables(self):
         """
-- 
2.43.0


From b44d659ed5438ec0962c216fdacb3d16483ffb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:52 +0000
Subject: [PATCH 15/52] fix: BestPaths does not divide by zero when all edges
 have the same weight

---
 vrpy/subproblem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 308609e..b935c11 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -200,10 +200,12 @@ class _SubProblemBase:
         # Normalize weights
         max_weight = max(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
         min_weight = min(self.G.edges[i, j]["weight"] for (i, j) in self.G.edges())
+        # If all weights are equal, they are normalized to 0
+        spread = (max_weight - min_weight) or 1
         for edge in self.G.edges(data=True):
             edge[2]["pos_weight"] = (
                 -max_weight - min_weight + 2 * edge[2]["weight"]
-            ) / (max_weight - min_weight)
+            ) / spread
             edge[2]["pos_weight"] = max(0, edge[2]["pos_weight"])
         # Compute beta shortest paths
         best_paths = list(
-- 
2.43.0


From 114289c60f2eb1a01cbfa90a974bafb80990b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:15 +0000
Subject: [PATCH 16/52] fix: diving returns an integer solution which visits
 each customer once

---
 vrpy/master_solve_pulp.py | 5 +++++
 vrpy/vrp.py               | 8 +++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index c8d8d82..d21eb75 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -68,6 +68,11 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.prob.resolve()
         return self.get_duals(), self.prob.objective.value()
 
+    def release_fixed_columns(self):
+        """Removes the constraints added by the diving heuristic."""
+        for name in [c for c in self.prob.constraints if c.startswith("fix_")]:
+            del self.prob.constraints[name]
+
     def update(self, new_route):
         """Add new column."""
         if self.minimize_global_span:
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 2560d69..a275fba 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -528,11 +528,9 @@ class VehicleRoutingProblem:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-            (
-                self._best_value,
-                self._best_routes_as_graphs,
-            ) = self.masterproblem.get_total_cost_and_routes(relax=True)
-        elif len(self.G.nodes()) > 2:
+            # The decisions taken while diving only guide the generation of columns
+            self.masterproblem.release_fixed_columns()
+        if len(self.G.nodes()) > 2:
             # Solve as MIP
             _, _ = self.masterproblem.solve(
                 relax=False, time_limit=self._get_time_remaining(mip=True)
-- 
2.43.0


From c9c28af1b70ac95b6a0c3f5230205c8a0d68985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:45 +0000
Subject: [PATCH 17/52] fix: hyper-heuristic handles masters without active
 columns

---
 vrpy/hyper_heuristic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index 7350c49..28521d2 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -322,7 +322,8 @@ class _HyperHeuristic:
     def _update_params_wgtavr(self):
         "Updates params for Weighted average performance measure"
         sum_exp = sum(self.exp.values())
-        active = sum(self.active_columns.values())
+        # there may be no active columns if all nodes are dropped
+        active = sum(self.active_columns.values()) or 1
         for heuristic in self.heuristic_options:
             # if heuristic has not been applied, let it be self.inf
             if self.iterations[heuristic] > 0:
-- 
2.43.0


From 6634a27f9156bdba7c7107065c7d0964a3d67e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:34 +0000
Subject: [PATCH 18/52] fix: read duals of nodes whose name contains characters
 replaced by pulp

---
 vrpy/master_solve_pulp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index d21eb75..afeee58 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -96,7 +96,8 @@ class _MasterSolvePulp(_MasterProblemBase):
                 and "depot_from" not in self.G.nodes[node]
                 and "depot_to" not in self.G.nodes[node]
             ):
-                constr_name = "visit_node_%s" % node
+                # pulp replaces some of the characters of the names
+                constr_name = self.set_covering_constrs[node].name
                 if not relax:
                     duals[node] = self.prob.constraints[constr_name].pi
                 else:
-- 
2.43.0


From 1df9dba1750dca7a7b00f41b7a65224268d6d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:02 +0000
Subject: [PATCH 19/52] fix: drop penalties when all nodes are preassigned

---
 vrpy/master_solve_pulp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index afeee58..7e71544 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -30,6 +30,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.dummy = {}  # dummy variable
         self.dummy_bound = {}  # dummy variable for vehicle bound cost
         self.makespan = {}  # maximum global span
+        self.dropped_nodes = []  # nodes dropped in the final solution
         # constrs
         self.set_covering_constrs = {}
         self.vehicle_bound_constrs = {}
-- 
2.43.0


From 828aee24510206bb7afcda6d1a8704241fdbce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:02 +0000
Subject: [PATCH 20/52] fix: meet frequencies when initial routes are given

---
 vrpy/vrp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index a275fba..3635acb 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -504,6 +504,11 @@ class VehicleRoutingProblem:
         if self._initial_routes:
             # Initial solution is given as input
             check_initial_routes(initial_routes=self._initial_routes, G=self.G)
+            if self.periodic and not self.pickup_delivery:
+                # Round trips are required if frequencies cannot be met otherwise
+                alg = _RoundTrip(self.G)
+                alg.run()
+                self._initial_routes = self._initial_routes + alg.round_trips
         else:
             # Initial solution is computed with Clarke & Wright (or round trips)
             self._get_initial_solution()
-- 
2.43.0


From 25c92ccb08133dcc509cf1ede17ea278d213b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:15 +0000
Subject: [PATCH 21/52] fix: preassigned complete routes use the vehicles of
 the fleet

---
 vrpy/vrp.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 3635acb..7e3997b 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -248,6 +248,7 @@ class VehicleRoutingProblem:
         self._dropped_nodes = []
         self._best_routes_as_graphs = []
         self._preassignments = preassignments if preassignments else []
+        self._preassigned_vehicle_types = {}
         self._initial_routes = initial_routes if initial_routes else []
         # Work on a copy of the graph, as the input may be solved again
         G, num_stops, num_vehicles = self.G, self.num_stops, self.num_vehicles
@@ -1017,6 +1018,7 @@ class VehicleRoutingProblem:
             # If the route cannot be extended, remove it
             if route[0] == "Source" and route[-1] == "Sink":
                 logger.info("locking %s" % route)
+                self._lock_vehicle(route)
                 self.G.remove_nodes_from(route[1:-1])
             # Otherwise, keep it and set the costs to 0
             else:
@@ -1164,22 +1166,33 @@ class VehicleRoutingProblem:
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-                edges = list(zip(route[:-1], route[1:]))
-                best_cost = 1e10
-                for k in range(self._vehicle_types):
-                    # If different vehicles, the cheapest feasible one is accounted for
-                    cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = self._get_max_load(route)
-                    if cost < best_cost:
-                        if self.load_capacity:
-                            if load <= self.load_capacity[k]:
-                                best_cost = cost
-                                self._best_routes_vehicle_type[route_id] = k
-                        else:
-                            best_cost = cost
-                            self._best_routes_vehicle_type[route_id] = k
+                self._best_routes_vehicle_type[
+                    route_id
+                ] = self._preassigned_vehicle_types[tuple(route)]
                 route_id += 1
 
+    def _lock_vehicle(self, route):
+        """
+        Assigns a vehicle to a preassigned complete route.
+        If different vehicles, the cheapest feasible one is accounted for.
+        """
+        edges = list(zip(route[:-1], route[1:]))
+        load = self._get_max_load(route)
+        costs = {
+            k: sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
+            for k in range(self._vehicle_types)
+            if (not self.load_capacity or load <= self.load_capacity[k])
+            and (not self.num_vehicles or self.num_vehicles[k] > 0)
+        }
+        if not costs:
+            raise ValueError("No vehicle available for locked route %s." % route)
+        vehicle_type = min(costs, key=costs.get)
+        self._preassigned_vehicle_types[tuple(route)] = vehicle_type
+        # This vehicle is no longer available
+        if self.num_vehicles:
+            self.num_vehicles = list(self.num_vehicles)
+            self.num_vehicles[vehicle_type] -= 1
+
     def _format(self):
         """Attributes are stored as singletons."""
         for (i, j) in self.G.edges():
-- 
2.43.0


From 5fdf9fefa3d1aa6f9b89cc516e2e3f8fec8293a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:45 +0000
Subject: [PATCH 22/52] fix: heuristic_only keeps the preassigned complete
 routes

---
 vrpy/vrp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 7e3997b..fe15e5f 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -889,6 +889,7 @@ class VehicleRoutingProblem:
                 [0 for r in range(len(alg.best_routes))],
             )
         )
+        self._merge_preassigned_routes(len(alg.best_routes))
 
     # Preprocessing #
 
@@ -1162,7 +1163,10 @@ class VehicleRoutingProblem:
             self._best_routes[route_id] = node_list
             self._best_routes_vehicle_type[route_id] = route.graph["vehicle_type"]
             route_id += 1
-        # Merge with preassigned complete routes
+        self._merge_preassigned_routes(route_id)
+
+    def _merge_preassigned_routes(self, route_id):
+        """Merges preassigned complete routes with the best routes."""
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-- 
2.43.0


From 5789276404b30cb49d270c31874dcbedb44701b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:53 +0000
Subject: [PATCH 23/52] fix: LP pricing ignores solutions which are not routes
 when time is up

---
 vrpy/subproblem_lp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..3b3731f 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -27,7 +27,7 @@ class _SubProblemLP(_SubProblemBase):
     def solve(self, time_limit, exact=True):
         if not self.run_subsolve:
             return self.routes, False
-        if time_limit and time_limit <= 0:
+        if time_limit is not None and time_limit <= 0:
             return self.routes, False
 
         self._formulate()
@@ -43,6 +43,7 @@ class _SubProblemLP(_SubProblemBase):
             pulp.value(self.prob.objective) is not None
             and pulp.value(self.prob.objective) < -(10**-3)
             and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
+            and self._is_solved()
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
             more_routes = True
             self._add_new_route()
@@ -51,6 +52,13 @@ class _SubProblemLP(_SubProblemBase):
 
         return self.routes, more_routes
 
+    def _is_solved(self):
+        """
+        If the solver is stopped (time limit) before it finds a solution,
+        the values of the variables are not those of a route.
+        """
+        return self.prob.sol_status == pulp.LpSolutionOptimal or self.prob.valid(1e-6)
+
     def _add_new_route(self):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
-- 
2.43.0


From b247826a13ee690397e1da556075264854e470e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:53 +0000
Subject: [PATCH 24/52] fix: leave time for scheduling periodic routes when
 time is up

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index fe15e5f..84f3fe9 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1239,6 +1239,6 @@ class VehicleRoutingProblem:
                 self._num_vehicles_schedule,
                 solver,
             )
-            schedule.solve(self._get_time_remaining())
+            schedule.solve(self._get_time_remaining(mip=True))
             self._schedule = schedule.routes_per_day
         self.comp_time = time() - self._start_time
-- 
2.43.0


From 7179809a503a41f51e31739a35548016f2f809af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:49 +0000
Subject: [PATCH 25/52] fix: stop generating columns when time is up before the
 master problem is solved

---
 vrpy/master_solve_pulp.py | 7 +++++++
 vrpy/vrp.py               | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 7e71544..d87924c 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -50,6 +50,13 @@ class _MasterSolvePulp(_MasterProblemBase):
         logger.debug("Objective: %s" % pulp.value(self.prob.objective))
         # self.prob.writeLP("master.lp")
 
+        if (
+            relax
+            and time_limit is not None
+            and pulp.LpStatus[self.prob.status] == "Not Solved"
+        ):
+            # time is up
+            return None, None
         if pulp.LpStatus[self.prob.status] != "Optimal":
             raise Exception("problem " + str(pulp.LpStatus[self.prob.status]))
         # This logging takes time
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 84f3fe9..315da3e 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -578,6 +578,10 @@ class VehicleRoutingProblem:
             duals, relaxed_cost = self.masterproblem.solve(
                 relax=True, time_limit=self._get_time_remaining()
             )
+            if duals is None:
+                # time is up
+                self._more_routes = False
+                return
         logger.info("iteration %s, %.6s" % (self._iteration, relaxed_cost))
         pricing_strategy = self._get_next_pricing_strategy(relaxed_cost)
 
-- 
2.43.0


From 7f8d75f9f5a79145e65f68eab9e99abfb90fc366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:54 +0000
Subject: [PATCH 26/52] fix: diving does not share its tabu list between
 problems

---
 vrpy/restricted_master_heuristics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 1ce25ed..e83db81 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -93,6 +93,6 @@ class _DivingHeuristic:
 
 
 class _LPNode:
-    def __init__(self, parent=None, tabu_list=[]):
+    def __init__(self, parent=None, tabu_list=None):
         self.parent = parent
-        self.tabu_list = tabu_list
+        self.tabu_list = tabu_list if tabu_list is not None else []
-- 
2.43.0


From 353ed4ad485819c00e49c82633b28c7ed73501dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:57 +0000
Subject: [PATCH 27/52] fix: strengthen time windows with the fastest paths
 from and to the depot

---
 vrpy/vrp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 315da3e..2607801 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -4,7 +4,7 @@ from copy import deepcopy
 from time import time
 from typing import List, Union
 
-from networkx import DiGraph, shortest_path  # draw_networkx
+from networkx import DiGraph, shortest_path, shortest_path_length  # draw_networkx
 
 from vrpy.greedy import _Greedy
 from vrpy.schedule import _Schedule
@@ -1054,6 +1054,10 @@ class VehicleRoutingProblem:
 
     def _remove_infeasible_arcs_time_windows(self):
         infeasible_arcs = []
+        # Shortest travel times from and to the depot
+        # (the direct edge may not be the fastest path)
+        time_from_source = shortest_path_length(self.G, source="Source", weight="time")
+        time_to_sink = shortest_path_length(self.G, target="Sink", weight="time")
         for (i, j) in self.G.edges():
             travel_time = self.G.edges[i, j]["time"]
             service_time = self.G.nodes[i]["service_time"]
@@ -1067,13 +1071,12 @@ class VehicleRoutingProblem:
                     # earliest time is coming straight from depot
                     self.G.nodes[v]["lower"] = max(
                         self.G.nodes[v]["lower"],
-                        self.G.nodes["Source"]["lower"]
-                        + self.G.edges["Source", v]["time"],
+                        self.G.nodes["Source"]["lower"] + time_from_source[v],
                     )
                     # Latest time is going straight to depot
                     self.G.nodes[v]["upper"] = min(
                         self.G.nodes[v]["upper"],
-                        self.G.nodes["Sink"]["upper"] - self.G.edges[v, "Sink"]["time"],
+                        self.G.nodes["Sink"]["upper"] - time_to_sink[v],
                     )
         self.G.remove_edges_from(infeasible_arcs)
 
-- 
2.43.0


From 69268821920e66d50a6cf4f27b3c378bc339afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:29 +0000
Subject: [PATCH 28/52] fix: diving ignores variables without a value

---
 vrpy/restricted_master_heuristics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index e83db81..7aaa327 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -41,7 +41,8 @@ class _DivingHeuristic:
             non_integer_vars = [
                 var
                 for var in relax.variables()
-                if abs(var.varValue - round(var.varValue)) != 0
+                if var.varValue is not None  # pulp's dummy variables have no value
+                and abs(var.varValue - round(var.varValue)) != 0
             ]
             # All non-integer variables not already fixed in this or any
             # iteration of the diving heuristic
-- 
2.43.0


From 5d6008071aa9db4a6bf41e6fe48b2c47cb45d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:22 +0000
Subject: [PATCH 29/52] fix: relaxed cost is zero when none of the routes has a
 cost

---
 vrpy/master_solve_pulp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index d87924c..4f31464 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -68,13 +68,14 @@ class _MasterSolvePulp(_MasterProblemBase):
         #                          (r.graph["name"], val))
         duals = self.get_duals()
         logger.debug("duals : %s" % duals)
-        return duals, self.prob.objective.value()
+        # the objective has no value when none of the routes has a cost
+        return duals, self.prob.objective.value() or 0.0
 
     def solve_and_dive(self, time_limit):
         self._solve(relax=True, time_limit=time_limit)
         self.diving_heuristic.run_dive(self.prob)
         self.prob.resolve()
-        return self.get_duals(), self.prob.objective.value()
+        return self.get_duals(), self.prob.objective.value() or 0.0
 
     def release_fixed_columns(self):
         """Removes the constraints added by the diving heuristic."""
-- 
2.43.0


From d37cd626b57c32ec0912deae761c5543cc1095be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:50 +0000
Subject: [PATCH 30/52] fix: cspy pricing does not run without a limit once
 time is up

---
 vrpy/subproblem_cspy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 4bbf998..a6c15a1 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -248,7 +248,7 @@ class _SubProblemCSPY(_SubProblemBase):
                 self.min_res,
                 threshold=thr,
                 direction=direction,
-                time_limit=time_limit - 0.5 if time_limit else None,
+                time_limit=time_limit - 0.5 if time_limit is not None else None,
                 elementary=elementary,
                 REF_callback=my_callback,
                 # pickup_delivery_pairs=self.pickup_delivery_pairs,
-- 
2.43.0


From c36f9febc41922b609d94116910c97a5fa2434e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:17 +0000
Subject: [PATCH 31/52] fix: the global span takes all routes into account

---
 vrpy/master_solve_pulp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 4f31464..01098a5 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -433,7 +433,7 @@ class _MasterSolvePulp(_MasterProblemBase):
             cost = 0
         else:
             # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
+            constraints = [self.makespan_constr[x] for x in self.makespan_constr]
             cost = 1
         self.makespan = pulp.LpVariable(
             "makespan",
-- 
2.43.0


From e514887b81b7886a64fb52ff84bf60e2c000f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 32/52] fix: the global span is not limited to a thousand
 routes

---
 vrpy/master_solve_pulp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 01098a5..4b85988 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -39,7 +39,9 @@ class _MasterSolvePulp(_MasterProblemBase):
         # Restricted master heuristic
         self.diving_heuristic = _DivingHeuristic()
         # Parameter when minimizing global span
-        self._n_columns = 1000
+        self._n_columns = 1000 + max(
+            (route.graph["name"] for route in self.routes), default=0
+        )
 
         self._formulate()
 
-- 
2.43.0


From 4cb4e588d597af88996ff55cf32bfe81bde035b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:30 +0000
Subject: [PATCH 33/52] fix: stop generating routes for the global span when
 time is up

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 2607801..9a39f5d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -622,7 +622,7 @@ class VehicleRoutingProblem:
                         duals=duals,
                         route=route,
                     )
-                    if self._more_routes:
+                    if self._more_routes or self._get_time_remaining() == 0.0:
                         break
             if self._more_routes:
                 self.routes[-1].graph["heuristic"] = pricing_strategy
-- 
2.43.0


From 34c4edbf769c3561d3bdf6f07dabab480fe5b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:44 +0000
Subject: [PATCH 34/52] fix: return an integer solution when the final
 optimisation is stopped by the time limit

---
 vrpy/master_solve_pulp.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 4b85988..b847bdf 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -59,6 +59,16 @@ class _MasterSolvePulp(_MasterProblemBase):
         ):
             # time is up
             return None, None
+        if (
+            not relax
+            and time_limit is not None
+            and pulp.LpStatus[self.prob.status] != "Infeasible"
+            and not (
+                pulp.LpStatus[self.prob.status] == "Optimal" and self.prob.valid(1e-4)
+            )
+        ):
+            # time is up before an integer solution is found: search for the first one
+            self._solve(relax, time_limit=None, first_solution=True)
         if pulp.LpStatus[self.prob.status] != "Optimal":
             raise Exception("problem " + str(pulp.LpStatus[self.prob.status]))
         # This logging takes time
@@ -142,7 +152,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         best_routes = []
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
-            if val is not None and val > 0:
+            if val is not None and val > (0 if relax else 0.5):
                 # a route may be run several times if nodes are visited periodically
                 best_routes += [r] * max(1, round(val))
                 # This logging takes time
@@ -184,7 +194,9 @@ class _MasterSolvePulp(_MasterProblemBase):
 
     # Private methods to solve and output #
 
-    def _solve(self, relax: bool, time_limit: Optional[int]):
+    def _solve(
+        self, relax: bool, time_limit: Optional[int], first_solution: bool = False
+    ):
         # Set variable types
         if not relax:
             # Set partitioning constraints and artificial variables to integer
@@ -221,11 +233,14 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.lowBound = 0
         # Solve with appropriate solver
         if self.solver == "cbc":
+            options = ["startalg", "barrier", "crossover", "0"]
+            if first_solution:
+                options += ["maxSolutions 1"]
             self.prob.solve(
                 pulp.PULP_CBC_CMD(
                     msg=False,
                     timeLimit=time_limit,
-                    options=["startalg", "barrier", "crossover", "0"],
+                    options=options,
                 )
             )
         elif self.solver == "cplex":
-- 
2.43.0


From cf1bf7c26938e53e355e8fc19995aad449757699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:27 +0000
Subject: [PATCH 35/52] fix: drop nodes which cannot be reached in time instead
 of raising an error

---
 vrpy/vrp.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 9a39f5d..ffa4965 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -966,7 +966,13 @@ class VehicleRoutingProblem:
         else:
             alg = _RoundTrip(self.G)
             alg.run()
-            self._initial_routes = alg.round_trips
+            self._initial_routes = [
+                route
+                for route in alg.round_trips
+                # nodes which cannot be reached in time may be dropped
+                if not self.drop_penalty
+                or all(edge in self.G.edges() for edge in zip(route[:-1], route[1:]))
+            ]
 
     def _convert_initial_routes_to_digraphs(self):
         """
@@ -974,7 +980,7 @@ class VehicleRoutingProblem:
         By default, initial routes are computed with the first feasible vehicle type.
         """
         self._routes = []
-        self._routes_with_node = {}
+        self._routes_with_node = {v: [] for v in self.G.nodes()}
         for route_id, r in enumerate(self._initial_routes, start=1):
             total_cost = 0
             G = DiGraph(name=route_id)
@@ -997,10 +1003,7 @@ class VehicleRoutingProblem:
             G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
-                if v in self._routes_with_node:
-                    self._routes_with_node[v].append(G)
-                else:
-                    self._routes_with_node[v] = [G]
+                self._routes_with_node[v].append(G)
 
     def _get_max_load(self, route):
         """Returns the largest load on board along a route."""
-- 
2.43.0


From cc7843c02841da951185bbd1752fc86256d1b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:51 +0000
Subject: [PATCH 36/52] fix: solve a relaxation without integer variables when
 nodes may be dropped

---
 vrpy/master_solve_pulp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index b847bdf..2cb7a48 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -226,6 +226,9 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.upBound = 0
                     var.lowBound = 0
                 var.cat = pulp.LpInteger
+            # Set dropping variables to integer
+            for var in self.drop.values():
+                var.cat = pulp.LpInteger
             # Force vehicle bound artificial variable to 0
             for var in self.dummy_bound.values():
                 if "artificial_bound_" in var.name:
@@ -416,7 +419,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     "drop_%s" % node,
                     lowBound=0,
                     upBound=1,
-                    cat=pulp.LpInteger,
+                    cat=pulp.LpContinuous,
                     e=(
                         self.drop_penalty * self.objective
                         + self.set_covering_constrs[node]
-- 
2.43.0


From 0dcc3feaf5e00f64a698d8037a18d84e82000df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 37/52] fix: diving does not backtrack from its first node

---
 vrpy/restricted_master_heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 7aaa327..80e7c11 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -32,9 +32,6 @@ class _DivingHeuristic:
     def run_dive(self, prob):
         tabu_list = []
         relax = prob.deepcopy()
-        # Init current_node
-        if self.current_node.parent is None:
-            self.current_node.parent = relax
         lp_node = _LPNode(self.current_node)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
@@ -81,7 +78,7 @@ class _DivingHeuristic:
                 if relax.status == 1:
                     prob.extend(constrs)
                     self.current_node = lp_node
-                else:
+                elif self.current_node.parent is not None:
                     # Backtrack
                     self.current_node = self.current_node.parent
                 logger.info(
-- 
2.43.0


From 0a7f1f68d059eb0b73e290b442ccf4c7467bd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:53 +0000
Subject: [PATCH 38/52] fix: cspy routes do not leave the depot before it opens

---
 vrpy/subproblem_cspy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index a6c15a1..74a09b6 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -49,12 +49,13 @@ class _MyREFCallback(REFCallback):
         # Travel times
         travel_time_ij = self._sub_G.edges[i, j]["time"]
         # Time windows
-        # Lower
+        # Lower (the depot is not left before it opens)
+        a_i = self._sub_G.nodes[i]["lower"]
         a_j = self._sub_G.nodes[j]["lower"]
         # Upper
         b_j = self._sub_G.nodes[j]["upper"]
 
-        new_res[2] = max(new_res[2] + theta_i + travel_time_ij, a_j)
+        new_res[2] = max(max(new_res[2], a_i) + theta_i + travel_time_ij, a_j)
 
         # time-window feasibility resource
         if not self._time_windows or (new_res[2] <= b_j):
-- 
2.43.0


From 500762fac1980519407ff66159191d31099dfcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:29 +0000
Subject: [PATCH 39/52] fix: pricing does not return a route which is already
 known

---
 vrpy/subproblem.py        |  9 +++++++++
 vrpy/subproblem_greedy.py | 16 ++++++++++++++--
 vrpy/subproblem_lp.py     |  3 +++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index b935c11..6801940 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -131,6 +131,15 @@ class _SubProblemBase:
                     "upper_bound_vehicles"
                 ][self.vehicle_type]
 
+    def is_known_route(self, edges):
+        """Checks if there is already such a route for this type of vehicle."""
+        edges = set(edges)
+        return any(
+            set(r.edges()) == edges
+            and r.graph["vehicle_type"] == self.vehicle_type
+            for r in self.routes
+        )
+
     def discard_nodes(self):
         """Removes nodes with marginal cost = 0."""
         for v in self.duals:
diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 3270ff7..2063215 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -35,7 +35,13 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_forward()
-            if self._new_node and self._weight < 0:
+            if (
+                self._new_node
+                and self._weight < 0
+                and not self.is_known_route(
+                    zip(self._current_path[:-1], self._current_path[1:])
+                )
+            ):
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
@@ -43,7 +49,13 @@ class _SubProblemGreedy(_SubProblemBase):
         for _ in range(n_runs):
             self._initialize_run()
             self.run_backwards()
-            if self._new_node and self._weight < 0:
+            if (
+                self._new_node
+                and self._weight < 0
+                and not self.is_known_route(
+                    zip(self._current_path[:-1], self._current_path[1:])
+                )
+            ):
                 logger.debug("negative column %s" % self._weight)
                 more_routes = True
                 self._add_new_route()
diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 3b3731f..0c74a9e 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -44,6 +44,9 @@ class _SubProblemLP(_SubProblemBase):
             and pulp.value(self.prob.objective) < -(10**-3)
             and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
             and self._is_solved()
+            and not self.is_known_route(
+                [(i, j) for (i, j) in self.x if pulp.value(self.x[(i, j)]) > 0.5]
+            )
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
             more_routes = True
             self._add_new_route()
-- 
2.43.0


From ad05441ba328fe51a75204e8f1167624df777cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:47 +0000
Subject: [PATCH 40/52] fix: check what heuristic_only supports before the
 other arguments

---
 vrpy/vrp.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index ffa4965..2c38d72 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -250,6 +250,14 @@ class VehicleRoutingProblem:
         self._preassignments = preassignments if preassignments else []
         self._preassigned_vehicle_types = {}
         self._initial_routes = initial_routes if initial_routes else []
+        if self._heuristic_only:
+            check_clarke_wright_compatibility(
+                self.time_windows,
+                self.pickup_delivery,
+                self.distribution_collection,
+                self.mixed_fleet,
+                self.periodic,
+            )
         # Work on a copy of the graph, as the input may be solved again
         G, num_stops, num_vehicles = self.G, self.num_stops, self.num_vehicles
         self.G = deepcopy(G)
@@ -870,13 +878,6 @@ class VehicleRoutingProblem:
 
     def _solve_with_clarke_wright(self):
         # return Clarke Wright solution
-        check_clarke_wright_compatibility(
-            self.time_windows,
-            self.pickup_delivery,
-            self.distribution_collection,
-            self.mixed_fleet,
-            self.periodic,
-        )
         alg = _ClarkeWright(
             self.G,
             self.load_capacity,
-- 
2.43.0


From c4947d05d6ec965c732c765c2586b9edc70237d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:41 +0000
Subject: [PATCH 41/52] fix: do not stop generating columns when the greedy
 algorithm has found some

---
 vrpy/vrp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 2c38d72..0ee5056 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -596,6 +596,7 @@ class VehicleRoutingProblem:
         # TODO: parallel
         # One subproblem per vehicle type
 
+        greedy_routes = False
         for vehicle in range(self._vehicle_types):
             # Solve pricing problem with randomised greedy algorithm
             if (
@@ -609,6 +610,7 @@ class VehicleRoutingProblem:
                 self.routes, self._more_routes = subproblem.solve(n_runs=20)
                 # Add initial_routes
                 if self._more_routes:
+                    greedy_routes = True
                     for r in (
                         r
                         for r in self.routes
@@ -638,6 +640,8 @@ class VehicleRoutingProblem:
                 break
             elif self._pricing_strategy == "Hyper":
                 self.hyper_heuristic.end_time = time()
+        # Columns found with the greedy algorithm have not been priced out yet
+        self._more_routes = self._more_routes or greedy_routes
 
         # Keep track of convergence rate and update stopping criteria parameters
         self._iteration += 1
-- 
2.43.0


From 95fce1e4a61ee758068615044a921d72a896053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:57 +0000
Subject: [PATCH 42/52] fix: choose the vehicle of an initial pickup and
 delivery route by its largest load

---
 vrpy/vrp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 0ee5056..bbb0e4c 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1017,6 +1017,11 @@ class VehicleRoutingProblem:
             for v in route:
                 load += self._H.nodes[v]["collect"] - self._H.nodes[v]["demand"]
                 max_load = max(max_load, load)
+        elif self.pickup_delivery:
+            load = 0
+            for v in route:
+                load += self._H.nodes[v]["demand"]
+                max_load = max(max_load, load)
         return max_load
 
     def _lock(self):
-- 
2.43.0


From e48ad134ff4d4aa6fe76c797b256aa9dc2918376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:42 +0000
Subject: [PATCH 43/52] fix: price pickup and delivery routes of vehicles which
 are too small for some requests

---
 vrpy/subproblem_lp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 0c74a9e..29cdd68 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -298,8 +298,10 @@ class _SubProblemLP(_SubProblemBase):
             cat=pulp.LpContinuous,
         )
 
-        # Load definition
-        M = self.load_capacity[self.vehicle_type]
+        # Load definition (a demand may exceed the capacity of this vehicle type)
+        M = self.load_capacity[self.vehicle_type] + max(
+            abs(self.sub_G.nodes[v]["demand"]) for v in self.sub_G.nodes()
+        )
         for (i, j) in self.sub_G.edges():
             self.prob += (
                 self.load[i] + self.sub_G.nodes[j]["demand"]
-- 
2.43.0


From 7e0a24699cfe6317c55f313b216d8ac6263d1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:33 +0000
Subject: [PATCH 44/52] fix: count service times in the default time limit of
 cspy routes

---
 vrpy/subproblem_cspy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 74a09b6..8f2bf45 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -174,8 +174,9 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res = [
             len(self.sub_G.nodes()) - 1,  # stop/mono
             total_demand,  # load
-            sum(
-                [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
+            sum([self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()])
+            + sum(
+                [self.sub_G.nodes[v]["service_time"] for v in self.sub_G.nodes()]
             ),  # time
             1,  # time windows
             total_demand,  # pickup
-- 
2.43.0


From 9d0e4ce971048a0b733b627677af213f5b76e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:43 +0000
Subject: [PATCH 45/52] fix: the second search of cspy is left with the
 remaining time

---
 vrpy/subproblem_cspy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 8f2bf45..820434b 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,4 +1,5 @@
 import logging
+from time import time
 
 from numpy import zeros
 from networkx import DiGraph, add_path
@@ -207,6 +208,7 @@ class _SubProblemCSPY(_SubProblemBase):
         if not self.run_subsolve:
             return self.routes, False
 
+        start = time()
         self.formulate()
         logger.debug("resources = {}".format(self.resources))
         logger.debug("min res = {}".format(self.min_res))
@@ -250,7 +252,11 @@ class _SubProblemCSPY(_SubProblemBase):
                 self.min_res,
                 threshold=thr,
                 direction=direction,
-                time_limit=time_limit - 0.5 if time_limit is not None else None,
+                time_limit=(
+                    time_limit - 0.5 - (time() - start)
+                    if time_limit is not None
+                    else None
+                ),
                 elementary=elementary,
                 REF_callback=my_callback,
                 # pickup_delivery_pairs=self.pickup_delivery_pairs,
-- 
2.43.0


From 4b1367cf1de2022e4671a5d5b9fae1592bd29aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:43 +0000
Subject: [PATCH 46/52] fix: do not solve the final master problem a second
 time

---
 vrpy/master_solve_pulp.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 2cb7a48..d3ce208 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -165,7 +165,6 @@ class _MasterSolvePulp(_MasterProblemBase):
             self.dropped_nodes = [
                 v for v in self.drop if pulp.value(self.drop[v]) > 0.5
             ]
-        self.prob.resolve()
         total_cost = self.prob.objective.value()
         if not relax and self.drop_penalty and len(self.dropped_nodes) > 0:
             logger.info("dropped nodes : %s" % self.dropped_nodes)
-- 
2.43.0


From 8d518c93e282b93a7bbb9f0782a9faa62179816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:36 +0000
Subject: [PATCH 47/52] fix: the global span is zero when all nodes are dropped

---
 vrpy/vrp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index bbb0e4c..0c62e98 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -288,10 +288,10 @@ class VehicleRoutingProblem:
         if self.drop_penalty:
             penalty = self.drop_penalty * len(self._dropped_nodes)
             if self.minimize_global_span:
-                return max(self.best_routes_cost.values()) + penalty
+                return max(self.best_routes_cost.values(), default=0) + penalty
             return sum(self.best_routes_cost.values()) + penalty
         if self.minimize_global_span:
-            return max(self.best_routes_cost.values())
+            return max(self.best_routes_cost.values(), default=0)
         return sum(self.best_routes_cost.values())
 
     @property
-- 
2.43.0


From a3c1167b387063851cfefd115ca99366c4e41555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:36 +0000
Subject: [PATCH 48/52] fix: minimize the global span with routes found by cspy

---
 vrpy/master_solve_pulp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index d3ce208..b82b232 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -140,11 +140,11 @@ class _MasterSolvePulp(_MasterProblemBase):
             for route in self.routes:
                 if not relax:
                     duals["makespan_%s" % route.graph["name"]] = self.prob.constraints[
-                        "makespan_%s" % route.graph["name"]
+                        "makespan_%s" % self._get_route_number(route)
                     ].pi
                 else:
                     duals["makespan_%s" % route.graph["name"]] = relax.constraints[
-                        "makespan_%s" % route.graph["name"]
+                        "makespan_%s" % self._get_route_number(route)
                     ].pi
         return duals
 
@@ -384,10 +384,15 @@ class _MasterSolvePulp(_MasterProblemBase):
                     for k in range(len(self.num_vehicles))
                     if route.graph["vehicle_type"] == k
                 )
-                + route.graph["cost"] * self.makespan_constr[route.graph["name"]]
+                + route.graph["cost"]
+                * self.makespan_constr[self._get_route_number(route)]
             ),
         )
 
+    def _get_route_number(self, route):
+        """Number of a route (the names of the routes found by cspy have a suffix)."""
+        return int(str(route.graph["name"]).split("_")[0])
+
     def _add_vehicle_dummy_variables(self):
         for key in range(len(self.num_vehicles)):
             self.dummy_bound[key] = pulp.LpVariable(
-- 
2.43.0


From 2723b8539672b78dad22d0f9a1a2c2258ea69844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:36 +0000
Subject: [PATCH 49/52] fix: columns at their upper bound do not stop column
 generation

---
 vrpy/master_solve_pulp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index b82b232..a6a0885 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -42,6 +42,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         self._n_columns = 1000 + max(
             (route.graph["name"] for route in self.routes), default=0
         )
+        # Number of times a route can be used
+        self._max_uses = self.periodic if self.periodic else 1
 
         self._formulate()
 
@@ -224,6 +226,8 @@ class _MasterSolvePulp(_MasterProblemBase):
                 if "non" in var.name:
                     var.upBound = 0
                     var.lowBound = 0
+                else:
+                    var.upBound = self._max_uses
                 var.cat = pulp.LpInteger
             # Set dropping variables to integer
             for var in self.drop.values():
@@ -354,7 +358,9 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=self.periodic if self.periodic else 1,
+            # when relaxed, the bound must not be active: a column at its upper
+            # bound may have a negative reduced cost and be priced out again
+            upBound=self._max_uses if self.use_all_vehicles else self._max_uses + 1,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From 10ffdbf66e269aedf811e4f344db330489706745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:12 +0000
Subject: [PATCH 50/52] fix: the time windows of LP pricing do not cut off
 routes with slow connections back

---
 vrpy/subproblem_lp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 29cdd68..38a03d8 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -176,14 +176,18 @@ class _SubProblemLP(_SubProblemBase):
         )
 
     def _add_time_windows(self):
-        # Big-M definition
-        M = self.sub_G.nodes["Sink"]["upper"]
         # Add varibles
         self.t = pulp.LpVariable.dicts(
             "t", self.sub_G.nodes(), lowBound=0, cat=pulp.LpContinuous
         )
         # Add big-M constraints
         for (i, j) in self.sub_G.edges():
+            # Big-M definition (the constraint is not active if (i, j) is not used)
+            M = (
+                self.sub_G.nodes[i]["upper"]
+                + self.sub_G.nodes[i]["service_time"]
+                + self.sub_G.edges[i, j]["time"]
+            )
             self.prob += (
                 self.t[i]
                 + self.sub_G.nodes[i]["service_time"]
-- 
2.43.0


From 1acee1e985418abae38f421a3d1a629c999d72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:00 +0000
Subject: [PATCH 51/52] fix: LP pricing keeps cycles out of the routes it finds

---
 vrpy/subproblem_lp.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 38a03d8..d21b811 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -44,9 +44,7 @@ class _SubProblemLP(_SubProblemBase):
             and pulp.value(self.prob.objective) < -(10**-3)
             and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
             and self._is_solved()
-            and not self.is_known_route(
-                [(i, j) for (i, j) in self.x if pulp.value(self.x[(i, j)]) > 0.5]
-            )
+            and not self.is_known_route(self._route_edges())
         ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
             more_routes = True
             self._add_new_route()
@@ -62,17 +60,27 @@ class _SubProblemLP(_SubProblemBase):
         """
         return self.prob.sol_status == pulp.LpSolutionOptimal or self.prob.valid(1e-6)
 
+    def _route_edges(self):
+        """
+        Edges of the path found. Without elementarity constraints, edges of
+        cycles (of non negative reduced cost) may be selected besides the path.
+        """
+        selected = DiGraph(
+            [(i, j) for (i, j) in self.x if pulp.value(self.x[(i, j)]) > 0.5]
+        )
+        path = shortest_path(selected, "Source", "Sink")
+        return list(zip(path[:-1], path[1:]))
+
     def _add_new_route(self):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
         self.total_cost = 0
-        for (i, j) in self.sub_G.edges():
-            if pulp.value(self.x[(i, j)]) > 0.5:
-                edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-                self.total_cost += edge_cost
-                new_route.add_edge(i, j, cost=edge_cost)
-                if i != "Source":
-                    self.routes_with_node[i].append(new_route)
+        for (i, j) in self._route_edges():
+            edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            self.total_cost += edge_cost
+            new_route.add_edge(i, j, cost=edge_cost)
+            if i != "Source":
+                self.routes_with_node[i].append(new_route)
 
         new_route.graph["cost"] = self.total_cost
         new_route.graph["vehicle_type"] = self.vehicle_type
@@ -135,10 +143,8 @@ class _SubProblemLP(_SubProblemBase):
             "end_at_sink",
         )
         # Forbid route Source-Sink
-        self.prob += (
-            pulp.lpSum([self.x[(i, j)] for (i, j) in self.sub_G.edges()]) >= 2,
-            "at_least_1_stop",
-        )
+        if ("Source", "Sink") in self.sub_G.edges():
+            self.prob += self.x[("Source", "Sink")] == 0, "at_least_1_stop"
 
         # Problem specific constraints
         if self.time_windows:
-- 
2.43.0


From 8bb9b4e859c77f75ef88f77d2f28c59a3f5c32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:25 +0000
Subject: [PATCH 52/52] fix: meet the frequencies of pickups and deliveries
 when initial routes are given

---
 vrpy/vrp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 0c62e98..fb59622 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -513,11 +513,11 @@ class VehicleRoutingProblem:
         if self._initial_routes:
             # Initial solution is given as input
             check_initial_routes(initial_routes=self._initial_routes, G=self.G)
-            if self.periodic and not self.pickup_delivery:
+            if self.periodic:
                 # Round trips are required if frequencies cannot be met otherwise
-                alg = _RoundTrip(self.G)
-                alg.run()
-                self._initial_routes = self._initial_routes + alg.round_trips
+                initial_routes = self._initial_routes
+                self._get_initial_solution()
+                self._initial_routes = initial_routes + self._initial_routes
         else:
             # Initial solution is computed with Clarke & Wright (or round trips)
             self._get_initial_solution()
-- 
2.43.0

