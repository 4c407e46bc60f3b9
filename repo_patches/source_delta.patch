From 53059bb43a824c0548a268386cc72132c70cd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:16 +0000
Subject: [PATCH 01/35] fix: keep interface reservations unrounded so
 fractional LSP shares do not fail validation

---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/interface.py         | 10 ++++++++++
 pyNTM/master_model.py      | 19 +++++++++++--------
 pyNTM/performance_model.py |  2 +-
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..7b0b6b7 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1665,7 +1665,7 @@ class FlexModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._adjust_reserved_bandwidth(lsp.reserved_bandwidth)
 
     def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
         """
diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..2bb1279 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -127,6 +127,16 @@ remote_node_object = %r, circuit_id = %r)" % (
                 "Interface reserved_bandwidth must be a float or integer"
             )
 
+    def _adjust_reserved_bandwidth(self, amount):
+        """
+        Changes the reserved bandwidth by amount (negative to release).  Works on
+        the unrounded value so that rounding does not accumulate across LSPs.
+
+        :param amount: bandwidth to add to the existing reservation
+        :return: None
+        """
+        self._reserved_bandwidth += amount
+
     @property
     def failed(self):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..56862d6 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -145,9 +145,9 @@ class _MasterModel(object):
         for lsp in (lsp for lsp in self.rsvp_lsp_objects if "Unrouted" not in lsp.path):
             for interface in lsp.path["interfaces"]:
                 int_info[interface._key]["lsps"].append(lsp)
-                int_info[interface._key]["reserved_bandwidth"] += round(
-                    lsp.reserved_bandwidth, 1
-                )
+                int_info[interface._key][
+                    "reserved_bandwidth"
+                ] += lsp.reserved_bandwidth
         return int_info
 
     def _validate_circuit_interface_capacity(
@@ -198,9 +198,12 @@ class _MasterModel(object):
 
         if interface.reserved_bandwidth > interface.capacity:
             int_res_bw_too_high.add(interface)
-        if round(interface.reserved_bandwidth, 1) != round(
-            int_info[interface._key]["reserved_bandwidth"], 1
-        ):  # pragma: no cover  # noqa
+        # interface.reserved_bandwidth is rounded to 1 decimal place, so allow for that
+        reserved_bw_difference = abs(
+            interface.reserved_bandwidth
+            - int_info[interface._key]["reserved_bandwidth"]
+        )
+        if reserved_bw_difference > 0.1:  # pragma: no cover  # noqa
             int_res_bw_sum_error.add(
                 (interface, interface.reserved_bandwidth, tuple(interface.lsps(self)))
             )
@@ -348,11 +351,11 @@ class _MasterModel(object):
             # prior path['interfaces'] list
             if lsp_res_bw_before != lsp.reserved_bandwidth:
                 for interface in lsp_path_interfaces_before:
-                    interface.reserved_bandwidth -= lsp_res_bw_before
+                    interface._adjust_reserved_bandwidth(-lsp_res_bw_before)
                 # . . . and then remove the new reserved bandwidth from the
                 # new path interfaces
                 for interface in lsp.path["interfaces"]:
-                    interface.reserved_bandwidth += lsp.reserved_bandwidth
+                    interface._adjust_reserved_bandwidth(lsp.reserved_bandwidth)
 
     def parallel_lsp_groups(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..55bbc21 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -466,7 +466,7 @@ class PerformanceModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._adjust_reserved_bandwidth(lsp.reserved_bandwidth)
 
     def _convert_graph_path_to_model_path(self, nx_sp):
         """
-- 
2.43.0


From f182619bb1a8e74a3f17224836774eb0237782c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 02/35] fix: allow edits between a failure and the next
 simulation when LSPs hold reservations

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 56862d6..69c2e33 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -198,6 +198,10 @@ class _MasterModel(object):
 
         if interface.reserved_bandwidth > interface.capacity:
             int_res_bw_too_high.add(interface)
+        # A failure clears the reservation on its interfaces; until the next
+        # update_simulation() the LSP paths still list those interfaces
+        if interface.reserved_bandwidth == 0:
+            return
         # interface.reserved_bandwidth is rounded to 1 decimal place, so allow for that
         reserved_bw_difference = abs(
             interface.reserved_bandwidth
-- 
2.43.0


From 01d84442afb86ac5a2aeb2c25fbeef56a9efe9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 03/35] fix: do not bar IGP traffic and circuits from
 interfaces that are not rsvp_enabled

---
 pyNTM/flex_model.py        | 8 +++++---
 pyNTM/performance_model.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 7b0b6b7..05e8910 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -975,21 +975,23 @@ class FlexModel(_MasterModel):
 
         G = nx.MultiDiGraph()
 
-        # Get all the edges that meet 'failed' and 'reservable_bw' criteria
+        # Get all the edges that meet 'failed' and 'reservable_bw' criteria; when no
+        # bandwidth is needed, interfaces that cannot be reserved (rsvp_enabled is
+        # False) still qualify
         if include_failed_circuits is False:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 55bbc21..9ceede9 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -522,21 +522,23 @@ class PerformanceModel(_MasterModel):
 
         G = nx.DiGraph()
 
-        # Get all the edges that meet 'failed' and 'reservable_bw' criteria
+        # Get all the edges that meet 'failed' and 'reservable_bw' criteria; when no
+        # bandwidth is needed, interfaces that cannot be reserved (rsvp_enabled is
+        # False) still qualify
         if include_failed_circuits is False:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 6db99d424b59eef7aa6bbf894cd554abf9acd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 04/35] fix: FlexModel path queries return only the eligible,
 least cost parallel interfaces

---
 pyNTM/flex_model.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 05e8910..0691c97 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1370,7 +1370,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._convert_nx_path_to_model_path(G, path)
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1411,8 +1411,8 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
-                converted_path["path"].append(model_path)
+                # Only the least cost interfaces in G are on a shortest path
+                converted_path["path"] += self._get_all_paths_mdg(G, [path])
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
                 )
@@ -1469,7 +1469,7 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
+    def _convert_nx_path_to_model_path(self, G, nx_graph_path):
         """
         Given a path from an networkx DiGraph, converts that
         path to a Model style path and returns that Model style path
@@ -1488,8 +1488,9 @@ class FlexModel(_MasterModel):
             Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
                 remote_node_object = Node('F'), circuit_id = 1)]
 
+        :param G: networkx multidigraph containing nx_graph_path, with Interface
+        objects in the edge data
         :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
         :return: List of Model Interfaces from source to destination
         """
 
@@ -1503,13 +1504,12 @@ class FlexModel(_MasterModel):
             if next_hop_index < len(nx_graph_path):
                 next_hop = nx_graph_path[next_hop_index]
 
-                interface = [
-                    interface
-                    for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
+                # Only the interfaces in G are eligible for the path
+                interfaces = [
+                    edge_data["interface"] for edge_data in G[hop][next_hop].values()
                 ]
 
-                model_path.append(interface)
+                model_path.append(interfaces)
 
         return model_path
 
-- 
2.43.0


From d39131a633eac1cc6f1be2326692c4b8ac47d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 05/35] fix: FlexModel re-signalled LSPs take one live,
 rsvp_enabled, least cost interface per hop

---
 pyNTM/flex_model.py | 68 +++------------------------------------------
 1 file changed, 4 insertions(+), 64 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 0691c97..fd3867e 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1453,10 +1453,8 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
-                converted_path["path"].append(model_path)
+                # Only the least cost interfaces in G are on a shortest path
+                converted_path["path"] += self._get_all_paths_mdg(G, [path])
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
                 )
@@ -1513,64 +1511,6 @@ class FlexModel(_MasterModel):
 
         return model_path
 
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1713,7 +1653,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1723,7 +1663,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From 0d4a57f8086d8324266a3f29dc22480e70eb5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 06/35] fix: LSPs with a configured setup bandwidth are not
 re-signalled at another bandwidth

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 69c2e33..4c94d68 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -344,6 +344,10 @@ class _MasterModel(object):
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
 
+            # LSPs with a configured (static) setup bandwidth keep that bandwidth
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             lsp_path_interfaces_before = lsp.path["interfaces"]
             lsp_res_bw_before = lsp.reserved_bandwidth
 
-- 
2.43.0


From 13a16beb50af7b99536e1962d7ee263f66eb3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 07/35] fix: path_detail of a demand that became unrouted no
 longer shows its old paths

---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index fd3867e..be5acc8 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -263,6 +263,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 9ceede9..f6bea8d 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -296,6 +296,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From a12d649ab3dfd2926a5fbe208ef24af662fff83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:46 +0000
Subject: [PATCH 08/35] fix: traffic_on_lsp returns 0 when no LSP of the
 parallel group is routed

---
 pyNTM/rsvp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..1236b65 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -285,6 +285,10 @@ class RSVP_LSP(object):
             lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
         ]
 
+        # If no LSP in the group is routed, then self carries no traffic
+        if not parallel_routed_lsps:
+            return 0
+
         # Find min metric within parallel_routed_lsps
         min_metric = min({lsp.effective_metric(model) for lsp in parallel_routed_lsps})
 
-- 
2.43.0


From fbd83822f37f7ce3751a1b783af63c23d6fa8329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 09/35] fix: keep LSP and demand groups of node names
 containing '-' apart

---
 pyNTM/flex_model.py        | 14 +++++-----
 pyNTM/master_model.py      | 54 +++++++++++++++++++++++++++++++++-----
 pyNTM/performance_model.py | 14 +++++-----
 pyNTM/rsvp.py              |  4 +--
 4 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index be5acc8..88eb47e 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -299,13 +299,11 @@ class FlexModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
-                    for lsp in self.parallel_lsp_groups()[key]
+                    for lsp in self._lsps_by_end_nodes()[key]
                     if "Unrouted" not in lsp.path
                 ]
             except KeyError:
@@ -443,9 +441,9 @@ class FlexModel(_MasterModel):
                         # the destination we are iterating through and whose effective metric matches the
                         # shortest path from source_node to destination
 
-                        key = "{}-{}".format(source_node.name, destination)
+                        key = (source_node.name, destination)
                         try:
-                            candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                            candidate_lsps_for_demand = self._lsps_by_end_nodes()[key]
                             min_metric = min(
                                 lsp.effective_metric(self)
                                 for lsp in candidate_lsps_for_demand
@@ -541,14 +539,14 @@ class FlexModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
 
             # Find the routed LSPs that can carry the demand
             try:
-                candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                candidate_lsps_for_demand = self._lsps_by_end_nodes()[key]
                 min_metric = min(
                     lsp.effective_metric(self)
                     for lsp in candidate_lsps_for_demand
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 4c94d68..7562f2a 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -225,10 +225,10 @@ class _MasterModel(object):
             interface.reserved_bandwidth = 0
 
         # Find parallel LSP groups
-        parallel_lsp_groups = self.parallel_lsp_groups()
+        parallel_lsp_groups = self._lsps_by_end_nodes()
 
         # Find all the parallel demand groups
-        parallel_demand_groups = self.parallel_demand_groups()
+        parallel_demand_groups = self._demands_by_end_nodes()
 
         # Route the LSPs by parallel group
         self._route_parallel_lsp_groups(parallel_demand_groups, parallel_lsp_groups)
@@ -240,9 +240,9 @@ class _MasterModel(object):
         Routes LSPs with same source, dest (parallel LSPs) based on the demands that would
         take those LSPs.  For each LSP, determine a 'path' attribute.
 
-        :param parallel_demand_groups: dict with keys = source_node-dest_node and values being a
+        :param parallel_demand_groups: dict with keys = (source_node, dest_node) and values being a
         list of all demands with the common corresponding source and dest nodes
-        :param parallel_lsp_groups: dict with keys = source_node-dest_node and values being a
+        :param parallel_lsp_groups: dict with keys = (source_node, dest_node) and values being a
         list of all LSPs with the common corresponding source and dest nodes
         :return: None; assigns path to each LSP
         """
@@ -256,7 +256,10 @@ class _MasterModel(object):
 
             print(
                 "Routing {} LSPs in parallel LSP group {}; {}/{}".format(
-                    num_lsps_in_group, group, counter, len(parallel_lsp_groups)
+                    num_lsps_in_group,
+                    "-".join(group),
+                    counter,
+                    len(parallel_lsp_groups),
                 )
             )
             # Traffic each LSP in a parallel LSP group will carry; initialize
@@ -383,6 +386,32 @@ class _MasterModel(object):
 
         """
 
+        return self._merge_groups_by_name(self._lsps_by_end_nodes())
+
+    @staticmethod
+    def _merge_groups_by_name(groups):
+        """
+        Converts the (source node name, dest node name) keys in groups to
+        'source_node_name-dest_node_name' keys
+
+        :param groups: dict with (source node name, dest node name) keys and list values
+        :return: dict with 'source_node_name-dest_node_name' keys and list values
+        """
+        named_groups = {}
+        for (src_node_name, dest_node_name), members in groups.items():
+            key = "{}-{}".format(src_node_name, dest_node_name)
+            named_groups[key] = named_groups.get(key, []) + members
+        return named_groups
+
+    def _lsps_by_end_nodes(self):
+        """
+        Determine LSPs with same source and dest nodes.  Node names may contain
+        '-', so the names are kept apart in the keys.
+
+        :return: dict with entries where key is (source node name, dest node name) and
+        value is a list of LSPs with matching source/dest nodes
+        """
+
         if self._parallel_lsp_groups != {}:
             return self._parallel_lsp_groups
         src_node_names = {lsp.source_node_object.name for lsp in self.rsvp_lsp_objects}
@@ -392,7 +421,7 @@ class _MasterModel(object):
 
         for src_node_name in src_node_names:
             for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
+                key = (src_node_name, dest_node_name)
                 parallel_lsp_groups[key] = []
                 for lsp in self.rsvp_lsp_objects:
                     if (
@@ -422,6 +451,17 @@ class _MasterModel(object):
             'F-E': [Demand(source = F, dest = E, traffic = 400, name = 'dmd_f_e_1')]}
         """
 
+        return self._merge_groups_by_name(self._demands_by_end_nodes())
+
+    def _demands_by_end_nodes(self):
+        """
+        Determine demands with same source and dest nodes.  Node names may contain
+        '-', so the names are kept apart in the keys.
+
+        :return: dict with entries where key is (source node name, dest node name) and
+        value is a list of demands with matching source/dest nodes
+        """
+
         src_node_names = {dmd.source_node_object.name for dmd in self.demand_objects}
         dest_node_names = {dmd.dest_node_object.name for dmd in self.demand_objects}
 
@@ -429,7 +469,7 @@ class _MasterModel(object):
 
         for src_node_name in src_node_names:
             for dest_node_name in dest_node_names:
-                key = "{}-{}".format(src_node_name, dest_node_name)
+                key = (src_node_name, dest_node_name)
                 parallel_demand_groups[key] = []
                 for dmd in self.demand_objects:
                     if (
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index f6bea8d..9396eeb 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -330,13 +330,11 @@ class PerformanceModel(_MasterModel):
             demand.path = []
 
             # Find all LSPs that can carry the demand from source to dest:
-            key = "{}-{}".format(
-                demand.source_node_object.name, demand.dest_node_object.name
-            )
+            key = (demand.source_node_object.name, demand.dest_node_object.name)
             try:
                 lsp_list = [
                     lsp
-                    for lsp in self.parallel_lsp_groups()[key]
+                    for lsp in self._lsps_by_end_nodes()[key]
                     if "Unrouted" not in lsp.path
                 ]
             except KeyError:
@@ -1261,14 +1259,14 @@ class PerformanceModel(_MasterModel):
 
             # Can demand take LSP?
             # Is there a parallel_lsp_group that matches the source and dest for the demand_object?
-            key = "{}-{}".format(
+            key = (
                 demand_object.source_node_object.name,
                 demand_object.dest_node_object.name,
             )
 
             # Find the routed LSPs that can carry the demand
             try:
-                candidate_lsps_for_demand = self.parallel_lsp_groups()[key]
+                candidate_lsps_for_demand = self._lsps_by_end_nodes()[key]
                 min_metric = min(
                     lsp.effective_metric(self)
                     for lsp in candidate_lsps_for_demand
@@ -1526,7 +1524,7 @@ class PerformanceModel(_MasterModel):
         """
 
         connected_nodes_list = [
-            (interface.node_object.name + "-" + interface.remote_node_object.name)
+            (interface.node_object.name, interface.remote_node_object.name)
             for interface in self.interface_objects
         ]
 
@@ -1536,7 +1534,7 @@ class PerformanceModel(_MasterModel):
         # parallel links, sort it, and return the list
         if len(connected_nodes_list) != len(connected_nodes_set):
             parallel_links = [
-                connection
+                "-".join(connection)
                 for connection in connected_nodes_list
                 if connected_nodes_list.count(connection) > 1
             ]
diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 1236b65..f760f00 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -276,11 +276,11 @@ class RSVP_LSP(object):
         """
 
         # Find all LSPs with same source and dest as self
-        parallel_lsp_groups = model.parallel_lsp_groups()
+        parallel_lsp_groups = model._lsps_by_end_nodes()
 
         total_traffic = sum(demand.traffic for demand in self.demands_on_lsp(model))
 
-        key = "{}-{}".format(self.source_node_object.name, self.dest_node_object.name)
+        key = (self.source_node_object.name, self.dest_node_object.name)
         parallel_routed_lsps = [
             lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
         ]
-- 
2.43.0


From ed94bc4e492ecb113109c3803423e7211b98abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 10/35] fix: validation reports interface names that are not
 unique on a node

---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/performance_model.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 88eb47e..9e80037 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -157,7 +157,7 @@ class FlexModel(_MasterModel):
         unique_interfaces_per_node = self._unique_interface_per_node()
 
         # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
+        if unique_interfaces_per_node is not True:  # pragma: no cover
             error_data.append(unique_interfaces_per_node)
 
         # Make validate_model() check for matching failed statuses
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 9396eeb..1785848 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -213,6 +206,13 @@ class PerformanceModel(_MasterModel):
             }
             error_data.append(node_dict)
 
+        # Validate there are no duplicate interfaces
+        unique_interfaces_per_node = self._unique_interface_per_node()
+
+        # Log any duplicate interfaces on a node
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append(unique_interfaces_per_node)
+
         # Read error_data
         if error_data:
             message = "network interface validation failed, see returned data"
-- 
2.43.0


From e9a0e516140c46377540e6fdc2ac6ce3f7d7df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:53 +0000
Subject: [PATCH 11/35] fix: models created without arguments no longer share
 their object sets

---
 pyNTM/flex_model.py        | 32 ++++++++------------------------
 pyNTM/master_model.py      | 17 +++++++++--------
 pyNTM/performance_model.py | 32 ++++++++------------------------
 3 files changed, 25 insertions(+), 56 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 9e80037..82ce0b5 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,19 +66,11 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
-        self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
-        self.srlg_objects = set()
-        self._parallel_lsp_groups = {}
-
         super().__init__(
             interface_objects, node_objects, demand_objects, rsvp_lsp_objects
         )
@@ -1983,19 +1975,11 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
-        self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
-        self.srlg_objects = set()
-        self._parallel_lsp_groups = {}
-
         super().__init__(
             interface_objects, node_objects, demand_objects, rsvp_lsp_objects
         )
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 7562f2a..0e947f9 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -28,16 +28,17 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        # Each model gets its own sets by default
+        self.interface_objects = set() if interface_objects is None else interface_objects
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 1785848..fc18b0b 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,19 +70,11 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
-        self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
-        self.srlg_objects = set()
-        self._parallel_lsp_groups = {}
-
         super().__init__(
             interface_objects, node_objects, demand_objects, rsvp_lsp_objects
         )
@@ -1557,19 +1549,11 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
-        self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
-        self.srlg_objects = set()
-        self._parallel_lsp_groups = {}
-
         super().__init__(
             interface_objects, node_objects, demand_objects, rsvp_lsp_objects
         )
-- 
2.43.0


From 20049cef1cbfd0634eaadb0049b902b89c4b151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 12/35] fix: interfaces added from a list attach to the model's
 nodes and honour 'failed'

---
 pyNTM/master_model.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 0e947f9..0ade2cc 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1247,23 +1247,26 @@ class _MasterModel(object):
         network_interface_objects = set([])
         network_node_objects = set([])
 
+        # Interfaces attach to the Nodes that already exist, by name
+        nodes = {node.name: node for node in self.node_objects}
+
         # Create the Interface objects
         for interface in interface_info_list:
+            # Check to see if the Interface's Node already exists, if not, add it
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes:
+                    nodes[node_name] = Node(node_name)
+                    network_node_objects.add(nodes[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes[interface["node"]],
+                nodes[interface["remote_node"]],
                 interface["circuit_id"],
             )
+            intf.failed = interface.get("failed", False)
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From f98a39bcc85eb1f4cbfd7b2d094a20be352dd374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 13/35] fix: add_circuit honours failed=True and failed end
 nodes

---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/performance_model.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 82ce0b5..be20d61 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1280,6 +1280,10 @@ class FlexModel(_MasterModel):
             circuit_id,
         )
 
+        # An Interface on a failed Node is failed as well
+        int_a.failed = failed
+        int_b.failed = failed
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index fc18b0b..e7b6918 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -702,6 +702,10 @@ class PerformanceModel(_MasterModel):
             circuit_id,
         )
 
+        # An Interface on a failed Node is failed as well
+        int_a.failed = failed
+        int_b.failed = failed
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
-- 
2.43.0


From bee934594fe18df740a4b720ac37ee8697fba24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 14/35] fix: removing an interface from an SRLG restores both
 ends of its circuit

---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 2bb1279..67c4c49 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -438,3 +438,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
-- 
2.43.0


From b4e603a188a468523b4df19195c83527d2ad8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:03 +0000
Subject: [PATCH 15/35] fix: an element added to a failed SRLG fails with it

---
 pyNTM/interface.py | 4 ++++
 pyNTM/node.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 67c4c49..6ffc37d 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -407,6 +407,10 @@ remote_node_object = %r, circuit_id = %r)" % (
             get_srlg.interface_objects.add(remote_int)
             remote_int._srlgs.add(get_srlg)
 
+            # Members of a failed SRLG are failed
+            if get_srlg.failed:
+                self.fail_interface(model)
+
     def remove_from_srlg(self, srlg_name, model):
         """
         Removes self and remote interface object from SRLG with srlg_name in model.
diff --git a/pyNTM/node.py b/pyNTM/node.py
index f5bcf88..1bb0f85 100644
--- a/pyNTM/node.py
+++ b/pyNTM/node.py
@@ -190,6 +190,10 @@ class Node(object):
             get_srlg.node_objects.add(self)
             self._srlgs.add(get_srlg)
 
+            # Members of a failed SRLG are failed
+            if get_srlg.failed:
+                model.fail_node(self.name)
+
     def remove_from_srlg(self, srlg_name, model):
         """
         Removes self from SRLG with srlg_name in model
-- 
2.43.0


From 7d0b8f049c6915d0497811ed871cd14f4adaed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 16/35] fix: unfail_node restores its other interfaces when a
 failed SRLG holds one down

---
 pyNTM/master_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 0ade2cc..a5f8d2d 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -869,8 +869,11 @@ class _MasterModel(object):
 
         for interface in ints_to_unfail_iterator:
 
-            # Unfail the interfaces if the remote node is not failed
-            if not interface.remote_node_object.failed:
+            # Unfail the interfaces if the remote node is not failed and no
+            # SRLG keeps the interface failed
+            if not interface.remote_node_object.failed and not any(
+                srlg.failed for srlg in interface.srlgs
+            ):
                 # Unfail the specific interface
                 self.unfail_interface(interface.name, node_name, False)
 
-- 
2.43.0


From 6ddc02b6b60225f5acbd3f4152117b06c620f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 17/35] fix: blank optional columns in a model file take their
 documented defaults

---
 pyNTM/flex_model.py        | 8 +++++---
 pyNTM/master_model.py      | 4 +++-
 pyNTM/performance_model.py | 8 +++++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index be20d61..deeff56 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1894,7 +1894,8 @@ class FlexModel(_MasterModel):
                     circuit_id,
                     rsvp_enabled,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # Blank means the default value
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1910,7 +1911,8 @@ class FlexModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # Blank means the default value
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1945,7 +1947,7 @@ class FlexModel(_MasterModel):
                 remote_node_object,
                 circuit_id,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index a5f8d2d..0742b53 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -654,7 +654,9 @@ class _MasterModel(object):
         new_node = Node(node_name)
         # Set igp_shortcuts_enabled; only used in FlexModel, ignored in PerformanceModel
         try:
-            igp_shortcuts_enabled_value = new_node.igp_shortcuts_enabled = node_info[3]
+            # Blank means the default value
+            igp_shortcuts_enabled_value = node_info[3] or False
+            new_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
         except IndexError:
             igp_shortcuts_enabled_value = False
         if node_name not in {node.name for node in node_set}:  # Pick up orphan nodes
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index e7b6918..2c8b6d5 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1158,7 +1158,8 @@ class PerformanceModel(_MasterModel):
                     capacity,
                     rsvp_enabled,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # Blank means the default value
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1173,7 +1174,8 @@ class PerformanceModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                # Blank means the default value
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1208,7 +1210,7 @@ class PerformanceModel(_MasterModel):
                 remote_node_object,
                 None,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
-- 
2.43.0


From 62aeb516a87b04e1d294b1fc20846359706c597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 18/35] fix: blank lines after the RSVP_LSP_TABLE of a model
 file are not read as LSPs

---
 pyNTM/master_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 0742b53..7dc72cc 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -15,6 +15,7 @@ from .interface import Interface
 from .node import Node
 from .rsvp import RSVP_LSP
 from .srlg import SRLG
+from .utilities import find_end_index
 
 from pprint import pprint
 
@@ -554,7 +555,8 @@ class _MasterModel(object):
 
         """
 
-        lsp_lines = lines[lsp_info_begin_index:]
+        lsp_info_end_index = find_end_index(lsp_info_begin_index, lines)
+        lsp_lines = lines[lsp_info_begin_index:lsp_info_end_index]
         for lsp_line in lsp_lines:
             lsp_info = lsp_line.split("\t")
             source = lsp_info[0]
-- 
2.43.0


From c47396a069215b6d944b442ac76f9548f81623bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 19/35] fix: fractional lat/lon in a model file are kept
 instead of becoming 0

---
 pyNTM/master_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 7dc72cc..aeb00bf 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -644,12 +644,12 @@ class _MasterModel(object):
         node_name = node_info[0]
         # Set latitude
         try:
-            node_lat = int(node_info[2])
+            node_lat = float(node_info[2])
         except (ValueError, IndexError):
             node_lat = 0
         # Set longitude
         try:
-            node_lon = int(node_info[1])
+            node_lon = float(node_info[1])
         except (ValueError, IndexError):
             node_lon = 0
 
-- 
2.43.0


From da6713c62c95505772083ca109ffdfb2765d24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 20/35] fix: the first manual_metric set on an LSP with a
 configured metric is not ignored

---
 pyNTM/rsvp.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index f760f00..3f1c530 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,8 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        # The value set here takes the place of any configured_manual_metric
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From 9b9062c9c979a2557db254b92a89673054900c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 21/35] fix: small traffic shares are no longer rounded away
 from interface traffic

---
 pyNTM/flex_model.py        | 5 -----
 pyNTM/performance_model.py | 7 +------
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index deeff56..5b886b4 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -734,11 +734,6 @@ class FlexModel(_MasterModel):
             for interface in info["items"]:
                 traff_per_int[interface] += info["path_traffic"]
 
-        # Round all traffic values to 1 decimal place
-        traff_per_int = {
-            interface: round(traffic, 1) for interface, traffic in traff_per_int.items()
-        }
-
         demand._path_detail = shortest_path_info
 
         return traff_per_int
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 2c8b6d5..31b70ff 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1485,7 +1485,7 @@ class PerformanceModel(_MasterModel):
 
             # Find path traffic
             max_split = max([split for split in traffic_splits_per_interface.values()])
-            path_traffic = round(float(demand.traffic) / float(max_split), 4)
+            path_traffic = float(demand.traffic) / float(max_split)
 
             shortest_path_info[path_key]["interfaces"] = path
             shortest_path_info[path_key]["splits"] = traffic_splits_per_interface
@@ -1504,11 +1504,6 @@ class PerformanceModel(_MasterModel):
         # Make shortest_path_info into the path_detail for the demand
         demand._path_detail = shortest_path_info
 
-        # Round all traffic values to 1 decimal place
-        traff_per_int = {
-            interface: round(traffic, 1) for interface, traffic in traff_per_int.items()
-        }
-
         return traff_per_int
 
     def _multiple_links_between_nodes(self):
-- 
2.43.0


From acb59f88bddab1505d8ebe50f486a0607a84c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 22/35] fix: IGP shortcut LSPs are chosen per path and ECMP
 shares add up to the demand's traffic

---
 pyNTM/flex_model.py | 139 ++++++++++++--------------------------------
 1 file changed, 37 insertions(+), 102 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 5b886b4..5e0e788 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -403,8 +403,16 @@ class FlexModel(_MasterModel):
         of the any applicable Interfaces
         """
 
-        # Substitute IGP enabled LSPs for Interfaces in paths
-        for node_path in node_paths:
+        finalized_paths = []
+
+        # Substitute IGP enabled LSPs for Interfaces in paths; each path is
+        # examined for the LSPs that start and end along that path
+        for interface_path in paths:
+            node_path = [interface_path[0].node_object.name]
+            node_path += [
+                interface.remote_node_object.name for interface in interface_path
+            ]
+
             # Find Nodes along the path that have igp_shortcuts_enabled and have
             # LSPs to downstream Nodes in the path
             path_lsps = []  # List of LSPs to substitute into path
@@ -461,21 +469,14 @@ class FlexModel(_MasterModel):
                             next_node_to_check.append(lsp_end_node)
                             break
 
-        # Now that path_lsps is known, substitute those into path
-        finalized_paths = []
-        if len(path_lsps) > 0:
-            for interface_path in paths:
-                finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
-                if finalized_path != -1:
-                    for path in finalized_path:
-                        # finalized_path may be a list of lists, so add each component path
-                        if path not in finalized_paths:
-                            finalized_paths.append(path)
-                else:
-                    finalized_paths.append(interface_path)
-        else:
-            # No LSPs available for shortcuts
-            finalized_paths = paths
+            # Now that path_lsps is known, substitute those into path; there may be
+            # more than one resulting path, so add each component path
+            path_options = [interface_path]
+            if len(path_lsps) > 0:
+                path_options = self._insert_lsps_into_path(path_lsps, interface_path)
+            for path in path_options:
+                if path not in finalized_paths:
+                    finalized_paths.append(path)
 
         return finalized_paths
 
@@ -657,7 +658,11 @@ class FlexModel(_MasterModel):
         # shortest_path_int_set = set(shortest_path_int_list)
         shortest_path_item_set = set(shortest_path_item_list)
 
-        unique_next_hops = self._find_unique_next_hops(shortest_path_item_set)
+        # Traffic that came the same way splits over the items its paths take next
+        next_hops = {}
+        for path in demand.path:
+            for hop, item in enumerate(path):
+                next_hops.setdefault(tuple(path[:hop]), set()).add(item)
 
         # shortest_path_info will be a dict with the following info for each path:
         # - an ordered list of interfaces in the path
@@ -702,17 +707,10 @@ class FlexModel(_MasterModel):
             total_splits = 1
 
             # Normalize any paths with LSPs
-            for item in path:
+            for hop, item in enumerate(path):
                 # Update the total cumulative splits in the path before
                 # traffic reaches the item in the path
-                if isinstance(item, Interface):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.node_object.name]
-                    )
-                elif isinstance(item, RSVP_LSP):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.source_node_object.name]
-                    )
+                total_splits = total_splits * len(next_hops[tuple(path[:hop])])
 
                 traffic_splits_per_interface[item] = total_splits
 
@@ -738,62 +736,6 @@ class FlexModel(_MasterModel):
 
         return traff_per_int
 
-    def _find_unique_next_hops(self, shortest_path_item_set):
-        """
-        From a set of items from all the shortest paths, determine how many unique
-        next hops there are from a given node.
-
-        :param shortest_path_item_set: a set of items (Interfaces, RSVP_LSPs) from all
-        the shortest paths
-
-        :return: a dict with keys for each Node name and values being a list of each unique
-        next hop from that Node
-
-        In the example output below, Node B has 2 unique next hops, buth of which are RSVP LSPs
-
-        Example output::
-
-            {'A': [Interface(name = 'A-G', cost = 25, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('G'), circuit_id = '6'),
-                   Interface(name = 'A-B', cost = 10, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('B'), circuit_id = '1')],
-             'B': [RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1'),
-                   RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2')],
-             'D': [RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')],
-             'G': [Interface(name = 'G-F', cost = 25, capacity = 100, node_object = Node('G'),
-                   remote_node_object = Node('F'), circuit_id = '7')]}
-        """
-        # Dict to store how many unique next hops each node has in the shortest paths
-        unique_next_hops = {}
-        # Iterate through all the items
-        for item in shortest_path_item_set:
-            if isinstance(item, Interface):
-                unique_next_hops[item.node_object.name] = []
-                # For a given Interface's node_object, determine how many
-                # Interfaces on that Node are facing next hops
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.node_object.name
-                    ):
-                        unique_next_hops[item.node_object.name].append(hop)
-            elif isinstance(item, RSVP_LSP):
-                unique_next_hops[item.source_node_object.name] = []
-                # For an LSP's source_node_object,
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.source_node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.source_node_object.name
-                    ):
-                        unique_next_hops[item.source_node_object.name].append(hop)
-        return unique_next_hops
-
     def _insert_lsps_into_path(self, path_lsps, path):
         """
         Substitutes the path_lsps into the path.  Although the path
@@ -830,26 +772,19 @@ class FlexModel(_MasterModel):
             # . . ((start_index, end_index, parallel_lsp_x)]
             lsp_group_slices = []
 
-            try:
-                start_interface = [
-                    interface
-                    for interface in path
-                    if isinstance(interface, Interface)
-                    and interface.node_object == lsp_group[0].source_node_object
-                ][0]
-
-                end_interface = [
-                    interface
-                    for interface in path
-                    if isinstance(interface, Interface)
-                    and interface.remote_node_object == lsp_group[0].dest_node_object
-                ][0]
+            start_interface = [
+                interface
+                for interface in path
+                if isinstance(interface, Interface)
+                and interface.node_object == lsp_group[0].source_node_object
+            ][0]
 
-            except IndexError:
-                # There is no LSP source/dest match for the Interfaces in path; this may happen
-                # with Demands that take ECMP paths, where one path has LSP shortcuts and other
-                # paths do not have LSP shortcuts
-                return -1  # code for no LSPs on path
+            end_interface = [
+                interface
+                for interface in path
+                if isinstance(interface, Interface)
+                and interface.remote_node_object == lsp_group[0].dest_node_object
+            ][0]
 
             slice_to_sub_start_index = path.index(start_interface)
             slice_to_sub_end_index = path.index(end_interface) + 1
-- 
2.43.0


From f7c12950669635ad9c93946b51c104f275767d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 23/35] fix: weathermap colours utilizations that fall between
 two whole percentages

---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1adecbc..7b336db 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -251,7 +251,7 @@ class WeatherMap(object):  # pragma: no cover
                     lower = int(range.split("-")[0])
                     upper = int(range.split("-")[1])
 
-                    if lower <= utilization <= upper:
+                    if lower <= utilization < upper + 1:
                         group = util_ranges[range]
                         break
                 except (ValueError, IndexError):
-- 
2.43.0


From af22ad94bce4bac4f28ba98d48c366e7560d8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 24/35] fix: weathermap demand interfaces of an unrouted demand
 are empty

---
 pyNTM/weathermap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 7b336db..c31ded4 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -349,6 +349,8 @@ class WeatherMap(object):  # pragma: no cover
         interfaces_to_highlight = set()
         lsps = set()
         for dmd in dmds:
+            if dmd.path == "Unrouted":
+                continue
             dmd_path = dmd.path[:]
             for path in dmd_path:
                 for hop in path:
-- 
2.43.0


From 2fb24a5866721608c02adbc26bd255f244370254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 25/35] fix: weathermap source and destination lists work with
 '-' in node names

---
 pyNTM/weathermap.py | 58 ++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index c31ded4..1ef05c3 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -380,13 +380,9 @@ class WeatherMap(object):  # pragma: no cover
             raise Exception(msg)
 
         if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
+            source_dest_pairs = self.model._demands_by_end_nodes().keys()
         elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+            source_dest_pairs = self.model._lsps_by_end_nodes().keys()
 
         sources = [pair[0] for pair in source_dest_pairs if pair[1] == destination]
 
@@ -410,13 +406,9 @@ class WeatherMap(object):  # pragma: no cover
             raise Exception(msg)
 
         if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
+            source_dest_pairs = self.model._demands_by_end_nodes().keys()
         elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+            source_dest_pairs = self.model._lsps_by_end_nodes().keys()
 
         destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
 
@@ -870,8 +862,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in demand source and destination options
         demand_sources = set()
         demand_destinations = set()
-        for entry in self.model.parallel_demand_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self.model._demands_by_end_nodes().keys():
             demand_sources.add(source)
             demand_destinations.add(dest)
         demand_sources_list = list(demand_sources)
@@ -892,8 +883,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in LSP source and destination options
         lsp_sources = set()
         lsp_destinations = set()
-        for entry in self.model.parallel_lsp_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self.model._lsps_by_end_nodes().keys():
             lsp_sources.add(source)
             lsp_destinations.add(dest)
         lsp_sources_list = list(lsp_sources)
@@ -1050,9 +1040,7 @@ class WeatherMap(object):  # pragma: no cover
                 destination = demand_dict["dest"]
                 # Find the demands that match the source and destination
                 try:
-                    dmds = self.model.parallel_demand_groups()[
-                        "{}-{}".format(source, destination)
-                    ]
+                    dmds = self.model._demands_by_end_nodes()[(source, destination)]
                 except KeyError:
                     return default_stylesheet + new_style
 
@@ -1246,8 +1234,8 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                lsp_list = self.model.parallel_lsp_groups()[key]
+                key = (ctx_src_inputs, ctx_dest_inputs)
+                lsp_list = self.model._lsps_by_end_nodes()[key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1262,16 +1250,16 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the lsps with specified destination
-                lsp_keys = self.model.parallel_lsp_groups().keys()
+                lsp_keys = self.model._lsps_by_end_nodes().keys()
                 src_keys = [
                     src_key
                     for src_key in lsp_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                    if src_key[1] == ctx_dest_inputs
                 ]
                 lsp_list = []
 
                 for src_key in src_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[src_key]
+                    lsp_list += self.model._lsps_by_end_nodes()[src_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1284,16 +1272,16 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the lsps with specified source
-                lsp_keys = self.model.parallel_lsp_groups().keys()
+                lsp_keys = self.model._lsps_by_end_nodes().keys()
                 dest_keys = [
                     dest_key
                     for dest_key in lsp_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                    if dest_key[0] == ctx_src_inputs
                 ]
                 lsp_list = []
 
                 for dest_key in dest_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[dest_key]
+                    lsp_list += self.model._lsps_by_end_nodes()[dest_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1357,8 +1345,8 @@ class WeatherMap(object):  # pragma: no cover
                 src_options = [{"label": ctx_src_inputs, "value": ctx_src_inputs}]
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
-                key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                demand_list = self.model.parallel_demand_groups()[key]
+                key = (ctx_src_inputs, ctx_dest_inputs)
+                demand_list = self.model._demands_by_end_nodes()[key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1372,16 +1360,16 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the demands with specified destination
-                dmd_keys = self.model.parallel_demand_groups().keys()
+                dmd_keys = self.model._demands_by_end_nodes().keys()
                 src_keys = [
                     src_key
                     for src_key in dmd_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                    if src_key[1] == ctx_dest_inputs
                 ]
                 demand_list = []
 
                 for src_key in src_keys:
-                    demand_list += model.parallel_demand_groups()[src_key]
+                    demand_list += model._demands_by_end_nodes()[src_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1395,16 +1383,16 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the demands with specified source
-                dmd_keys = model.parallel_demand_groups().keys()
+                dmd_keys = model._demands_by_end_nodes().keys()
                 dest_keys = [
                     dest_key
                     for dest_key in dmd_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                    if dest_key[0] == ctx_src_inputs
                 ]
                 demand_list = []
 
                 for dest_key in dest_keys:
-                    demand_list += model.parallel_demand_groups()[dest_key]
+                    demand_list += model._demands_by_end_nodes()[dest_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
-- 
2.43.0


From 3b7b82721e108dd69163bb5ccc23201263f798a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 26/35] fix: add_circuit works on a PerformanceModel that was
 not validated yet

---
 pyNTM/performance_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 31b70ff..fb8d68b 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -683,7 +683,12 @@ class PerformanceModel(_MasterModel):
         """
 
         if circuit_id is None:
-            circuit_ids = self.all_interface_circuit_ids
+            # Until the model is validated, existing circuit_ids may be None or strings
+            circuit_ids = [
+                existing_id
+                for existing_id in self.all_interface_circuit_ids
+                if isinstance(existing_id, int)
+            ]
             circuit_id = 1 if len(circuit_ids) == 0 else max(circuit_ids) + 1
         int_a = Interface(
             node_a_interface_name,
-- 
2.43.0


From 8ad27cd545ec6112967fcff18319e4e2931fe53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 27/35] fix: FlexModel validation reports a circuit_id used by
 more than two interfaces

---
 pyNTM/flex_model.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 5e0e788..30a7e42 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -16,6 +16,7 @@ This model type allows multiple links/parallel links between 2 nodes.
 There will be a performance impact in this model variant.
 """
 
+from collections import Counter
 from datetime import datetime
 from pprint import pprint
 
@@ -1042,6 +1043,9 @@ class FlexModel(_MasterModel):
         for interface in iter(self.interface_objects):
             interface.in_ckt = False
 
+        # A circuit_id bonds exactly two Interfaces into a Circuit
+        self._validate_circuit_id_appearances()
+
         circuits = set([])
 
         # Using the paired interfaces (source_node, dest_node) pairs from G,
@@ -1104,6 +1108,27 @@ class FlexModel(_MasterModel):
 
         self.circuit_objects = circuits
 
+    def _validate_circuit_id_appearances(self):
+        """
+        Raises a ModelException if a circuit_id appears on more than two Interfaces
+        """
+        circuit_ids = [
+            interface.circuit_id
+            for interface in self.interface_objects
+            if interface.circuit_id is not None
+        ]
+        bad_circuit_ids = [
+            {"circuit_id": circuit_id, "appearances": appearances}
+            for circuit_id, appearances in Counter(circuit_ids).items()
+            if appearances > 2
+        ]
+        if bad_circuit_ids:
+            msg = (
+                "Each circuit_id value must appear exactly twice; the following circuit_id "
+                "values do not meet that criteria: {}".format(bad_circuit_ids)
+            )
+            raise ModelException(msg)
+
     def get_interface_object_from_nodes(
         self, local_node_name, remote_node_name, circuit_id=None
     ):
-- 
2.43.0


From ee2a07b475cbbbc3dee8013cc89342ff1a574ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:19 +0000
Subject: [PATCH 28/35] fix: weathermap selected edge names its far end when
 node names contain '-'

---
 pyNTM/weathermap.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1ef05c3..3f36eb4 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1507,11 +1507,10 @@ class WeatherMap(object):  # pragma: no cover
                 # the selected edge is not null
                 int_data = ctx.triggered[0]["value"][0]
 
-                end_target = [
-                    item
-                    for item in int_data["target"].split("-")[1:]
-                    if item != int_data["source"]
-                ][0]
+                # The target is a midpoint; the far end is known to the model
+                end_target = model.get_interface_object(
+                    int_data["interface-name"], int_data["source"]
+                ).remote_node_object.name
                 int_info = {
                     "source": int_data["source"],
                     "interface-name": int_data["interface-name"],
-- 
2.43.0


From d0ebbe9acb7918dafc80b3496ab274ecaee0fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:26 +0000
Subject: [PATCH 29/35] fix: create_weathermap starts the app with dash's
 run(), run_server() no longer exists

---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 3f36eb4..3a65772 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1830,6 +1830,6 @@ class WeatherMap(object):  # pragma: no cover
 
         # ## END OF CALLBACK DEFS ## #
 
-        app.run_server()
+        app.run()
 
         return app
-- 
2.43.0


From 3548d20a43d8876dcff08058461f96a358c6eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 30/35] fix: RSVP reservations are decided on unrounded
 bandwidth so that equal shares fill a link

---
 pyNTM/flex_model.py        | 17 +++++++----------
 pyNTM/interface.py         | 28 ++++++++++++++++++++++++----
 pyNTM/master_model.py      |  3 ++-
 pyNTM/performance_model.py | 17 +++++++----------
 4 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 30a7e42..60016d9 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -906,14 +906,14 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
+                    and (needed_bw == 0 or interface._can_reserve(needed_bw))
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface._can_reserve(needed_bw)
             )
 
         if rsvp_required is True:
@@ -1521,9 +1521,8 @@ class FlexModel(_MasterModel):
 
             # Determine which candidate paths have enough reservable bandwidth
             for path in candidate_path_info:
-                if (
-                    min(interface.reservable_bandwidth for interface in path)
-                    >= lsp.setup_bandwidth
+                if all(
+                    interface._can_reserve(lsp.setup_bandwidth) for interface in path
                 ):
                     candidate_path_info_w_reservable_bw.append(path)
 
@@ -1589,13 +1588,11 @@ class FlexModel(_MasterModel):
         for interface in eligible_interface_generator:
             # Add back the lsp's reserved bandwidth to Interfaces already in its path
             if interface in lsp_path_interfaces:
-                effective_reservable_bw = (
-                    interface.reservable_bandwidth + lsp.reserved_bandwidth
-                )
+                released_bw = lsp.reserved_bandwidth
             else:
-                effective_reservable_bw = interface.reservable_bandwidth
+                released_bw = 0
 
-            if effective_reservable_bw >= needed_bw:
+            if interface._can_reserve(needed_bw, released_bw):
                 eligible_interfaces.add(interface)
 
         # Get edge names in eligible_interfaces
diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 6ffc37d..d61d984 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -98,13 +98,33 @@ remote_node_object = %r, circuit_id = %r)" % (
         """
 
         if self.rsvp_enabled is True:
-            res_bw = (
-                self.capacity * (self.percent_reservable_bandwidth / 100)
-            ) - self.reserved_bandwidth
-            return round(res_bw, 1)
+            return round(self._unreserved_bandwidth, 1)
         else:
             return -1.0
 
+    @property
+    def _unreserved_bandwidth(self):
+        """
+        Unrounded bandwidth that RSVP LSPs may still reserve
+        """
+        return (
+            self.capacity * (self.percent_reservable_bandwidth / 100)
+        ) - self._reserved_bandwidth
+
+    def _can_reserve(self, bandwidth, released=0):
+        """
+        Is there room to reserve bandwidth on the interface?  Decided on the unrounded
+        values, with an allowance for floating point error only.
+
+        :param bandwidth: bandwidth to reserve
+        :param released: existing reservation that would be given up in exchange
+        :return: Boolean
+        """
+        if self.rsvp_enabled is not True:
+            return False
+        allowance = 1e-11 * max(1, self.capacity)
+        return self._unreserved_bandwidth + released >= bandwidth - allowance
+
     @property
     def reserved_bandwidth(self):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index aeb00bf..6e61bba 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -198,7 +198,8 @@ class _MasterModel(object):
         :return: None
         """
 
-        if interface.reserved_bandwidth > interface.capacity:
+        # Decided on the unrounded reservation; allow for floating point error
+        if interface._reserved_bandwidth > interface.capacity * (1 + 1e-9) + 1e-9:
             int_res_bw_too_high.add(interface)
         # A failure clears the reservation on its interfaces; until the next
         # update_simulation() the LSP paths still list those interfaces
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index fb8d68b..ca3b812 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -421,9 +421,8 @@ class PerformanceModel(_MasterModel):
 
             # Determine which candidate paths have enough reservable bandwidth
             for path in all_paths:
-                if (
-                    min([interface.reservable_bandwidth for interface in path])
-                    >= lsp.setup_bandwidth
+                if all(
+                    interface._can_reserve(lsp.setup_bandwidth) for interface in path
                 ):
                     candidate_path_info_w_reservable_bw.append(path)
 
@@ -522,14 +521,14 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
+                    and (needed_bw == 0 or interface._can_reserve(needed_bw))
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface._can_reserve(needed_bw)
             )
 
         if rsvp_required is True:
@@ -945,13 +944,11 @@ class PerformanceModel(_MasterModel):
         for interface in eligible_interface_generator:
             # Add back the lsp's reserved bandwidth to Interfaces already in its path
             if interface in lsp_path_interfaces:
-                effective_reservable_bw = (
-                    interface.reservable_bandwidth + lsp.reserved_bandwidth
-                )
+                released_bw = lsp.reserved_bandwidth
             else:
-                effective_reservable_bw = interface.reservable_bandwidth
+                released_bw = 0
 
-            if effective_reservable_bw >= needed_bw:
+            if interface._can_reserve(needed_bw, released_bw):
                 eligible_interfaces.add(interface)
 
         # Get edge names in eligible_interfaces
-- 
2.43.0


From 54cb883e8935a8b71bd76201b9d4857c5e8ae43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:28 +0000
Subject: [PATCH 31/35] fix: display_demand_paths shows an unrouted demand with
 no paths

---
 pyNTM/master_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 6e61bba..a3ab530 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -968,8 +968,9 @@ class _MasterModel(object):
 
         for demand in demand_iter:
             print("demand._key is", demand._key)
-            print("Demand has %s paths:" % (len(demand.path)))
-            for path in demand.path:
+            paths = [] if demand.path == "Unrouted" else demand.path
+            print("Demand has %s paths:" % (len(paths)))
+            for path in paths:
                 pprint(path)
                 print()
             print()
-- 
2.43.0


From 1c3d93d9f71e2ddab0c8cdb145e382490ea43761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:22 +0000
Subject: [PATCH 32/35] fix: add_rsvp_lsp forgets the LSP groups found before,
 so that queries see the new LSP

---
 pyNTM/master_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index a3ab530..b9ed5e3 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1191,6 +1191,8 @@ class _MasterModel(object):
             message = "{} already exists in rsvp_lsp_objects".format(added_lsp)
             raise ModelException(message)
         self.rsvp_lsp_objects.add(added_lsp)
+        # The LSP groups found before do not have the new LSP
+        self._parallel_lsp_groups = {}
 
         self.validate_model()
 
-- 
2.43.0


From 8559de02fe9d2c92cb463828af16971b0260d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:58 +0000
Subject: [PATCH 33/35] fix: choosing the empty entry of an LSP's interface
 list on the weathermap selects no interface

---
 pyNTM/weathermap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 3a65772..0b844f6 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1523,7 +1523,10 @@ class WeatherMap(object):  # pragma: no cover
                 selected_interface = json.dumps(int_info)
             elif ctx.triggered[0]["prop_id"] != ".":
                 # No interface has been selected
-                if ctx.triggered[0]["value"] == no_selected_demand_text:
+                if ctx.triggered[0]["value"] in [
+                    no_selected_demand_text,
+                    no_selected_lsp_text,
+                ]:
                     selected_interface = json.dumps(
                         {"label": no_selected_interface_text, "value": ""}
                     )
-- 
2.43.0


From 9bee0368105d036ba82ce734fb9cf0ff46f70ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:58 +0000
Subject: [PATCH 34/35] fix: the weathermap shows no path for an unrouted
 demand or LSP, not the one selected before

---
 pyNTM/weathermap.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 0b844f6..7003a3a 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1781,11 +1781,8 @@ class WeatherMap(object):  # pragma: no cover
                                 0, null_choice
                             )  # Should give user option to clear selected item
                     return interfaces_list, lsp_list
-                elif '"routed": false' in demand:
-                    # Demand is selected but not routed
-                    raise PreventUpdate
-
                 else:
+                    # No demand is selected, or the selected one is not routed
                     selected_demand = no_selected_demand_text
                     return (
                         [{"label": selected_demand, "value": selected_demand}],
@@ -1821,10 +1818,8 @@ class WeatherMap(object):  # pragma: no cover
                         )  # Should give user option to clear selected item
 
                     return interfaces_list
-                elif '"routed": false' in lsp:
-                    # LSP is selected but not routed
-                    raise PreventUpdate
                 else:
+                    # No LSP is selected, or the selected one is not routed
                     return [
                         {"label": no_selected_lsp_text, "value": no_selected_lsp_text}
                     ]
-- 
2.43.0


From 132ba0a0e3273bae1144259d412cffa149a8ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:34 +0000
Subject: [PATCH 35/35] fix: weathermap keeps the midpoints of circuits apart
 when node names contain '-'

---
 pyNTM/weathermap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 7003a3a..6fe3949 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -477,12 +477,15 @@ class WeatherMap(object):  # pragma: no cover
             # Create the midpoint node between the endpoints
             if group_midpoints:
                 midpoint_label = "midpoint-{}-{}".format(node_a.name, node_b.name)
+                # Node names may contain '-'; the id keeps the names apart
+                midpoint_id = "midpoint-{!r}-{!r}".format(node_a.name, node_b.name)
             else:
                 midpoint_label = "midpoint-{}".format(ckt_id)
+                midpoint_id = midpoint_label
             new_node = self.make_json_node(
                 midpoint_x,
                 midpoint_y,
-                midpoint_label,
+                midpoint_id,
                 midpoint_label,
                 midpoint=True,
                 neighbors=[node_a.name, node_b.name],
@@ -505,7 +508,7 @@ class WeatherMap(object):  # pragma: no cover
             edges.append(
                 self.make_json_edge(
                     node_a.name,
-                    midpoint_label,
+                    midpoint_id,
                     int_a_name,
                     capacity,
                     ckt_id,
@@ -517,7 +520,7 @@ class WeatherMap(object):  # pragma: no cover
             edges.append(
                 self.make_json_edge(
                     node_b.name,
-                    midpoint_label,
+                    midpoint_id,
                     int_b_name,
                     capacity,
                     ckt_id,
-- 
2.43.0

