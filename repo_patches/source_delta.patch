From e456bcacd367e6ffe427559a7b80d15fb37dd1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:41 +0000
Subject: [PATCH 01/40] fix: route IGP traffic over and match circuits on
 interfaces that are not RSVP enabled

A request for no reservable bandwidth (needed_bw=0) excluded interfaces with
rsvp_enabled=False, so they carried no traffic, were ignored when searching for
shortest paths and were not paired into circuits or validated.
---
 pyNTM/flex_model.py        |  6 +++---
 pyNTM/master_model.py      | 13 +++++++++++++
 pyNTM/performance_model.py |  4 ++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..eb828ae 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -982,14 +982,14 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and self._meets_needed_bw(interface, needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if self._meets_needed_bw(interface, needed_bw)
             )
 
         if rsvp_required is True:
@@ -1504,7 +1504,7 @@ class FlexModel(_MasterModel):
                 interface = [
                     interface
                     for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
+                    if self._meets_needed_bw(interface, needed_bw)
                 ]
 
                 model_path.append(interface)
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..4b63ec3 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -131,6 +131,19 @@ class _MasterModel(object):
 
         return simulation_data
 
+    @staticmethod
+    def _meets_needed_bw(interface, needed_bw):
+        """
+        Does interface satisfy a request for needed_bw of reservable bandwidth?
+        A request for no bandwidth is satisfied by every interface, including those
+        that are not rsvp_enabled (which have a reservable_bandwidth of -1).
+
+        :param interface: Interface object to check
+        :param needed_bw: how much reservable bandwidth is required
+        :return: Boolean
+        """
+        return needed_bw <= 0 or interface.reservable_bandwidth >= needed_bw
+
     def _make_int_info_dict(self):
         """
         Makes dict of information for each interface.  Most of this information
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..9cd7143 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -529,14 +529,14 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and self._meets_needed_bw(interface, needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if self._meets_needed_bw(interface, needed_bw)
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 6f99182ad3c2b2e88575638878ca050e7e226c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 02/40] fix: FlexModel path queries return only usable parallel
 interfaces

get_shortest_path returned failed and higher cost parallel interfaces and
get_all_paths_reservable_bw(include_failed_circuits=False) returned failed ones,
since paths were rebuilt from every interface between two nodes instead of from
the edges of the graph that was searched.
---
 pyNTM/flex_model.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index eb828ae..9add772 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1368,7 +1368,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._convert_nx_path_to_model_path(path, G)
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1409,7 +1409,7 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1467,10 +1467,11 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
+    def _convert_nx_path_to_model_path(self, nx_graph_path, G):
         """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
+        Given a path from an networkx MultiDiGraph, converts that
+        path to a Model style path and returns that Model style path; each hop
+        in the Model style path is the list of all the Interfaces in G for that hop
 
         A networkx path is a list of nodes in order of transit.
         ex: ['A', 'B', 'G', 'D', 'F']
@@ -1487,7 +1488,7 @@ class FlexModel(_MasterModel):
                 remote_node_object = Node('F'), circuit_id = 1)]
 
         :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
+        :param G: networkx MultiDiGraph that nx_graph_path was found in
         :return: List of Model Interfaces from source to destination
         """
 
@@ -1501,13 +1502,9 @@ class FlexModel(_MasterModel):
             if next_hop_index < len(nx_graph_path):
                 next_hop = nx_graph_path[next_hop_index]
 
-                interface = [
-                    interface
-                    for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if self._meets_needed_bw(interface, needed_bw)
-                ]
+                interfaces = [edge["interface"] for edge in G[hop][next_hop].values()]
 
-                model_path.append(interface)
+                model_path.append(interfaces)
 
         return model_path
 
-- 
2.43.0


From 7ac32ec7a3cf8167851c291bd0ef0ed747523f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 03/40] fix: FlexModel re-signals an LSP only over usable
 parallel interfaces

When an LSP of a partially routed parallel group re-signaled, each parallel
interface of a hop was appended to its path as a hop of its own, including failed,
non-RSVP and higher cost interfaces, giving paths that are not contiguous.
---
 pyNTM/flex_model.py | 66 +++------------------------------------------
 1 file changed, 3 insertions(+), 63 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 9add772..2a6b4f4 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1451,9 +1451,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1508,64 +1506,6 @@ class FlexModel(_MasterModel):
 
         return model_path
 
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1708,7 +1648,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1718,7 +1658,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From 78fccb3b4b19a9fd4745517bb13e0c41340b0ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:36 +0000
Subject: [PATCH 04/40] fix: reserve bandwidth in the units that validation
 sums

An interface accumulated unrounded LSP bandwidth and rounded the total, while
validate_model summed rounded LSP bandwidths, so update_simulation raised
int_res_bw_sum_error on valid models (for example 15 units over 4 parallel LSPs).
---
 pyNTM/flex_model.py        | 2 +-
 pyNTM/master_model.py      | 4 ++--
 pyNTM/performance_model.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 2a6b4f4..003639d 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1602,7 +1602,7 @@ class FlexModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface.reserved_bandwidth += round(lsp.reserved_bandwidth, 1)
 
     def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 4b63ec3..7f3a921 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -361,11 +361,11 @@ class _MasterModel(object):
             # prior path['interfaces'] list
             if lsp_res_bw_before != lsp.reserved_bandwidth:
                 for interface in lsp_path_interfaces_before:
-                    interface.reserved_bandwidth -= lsp_res_bw_before
+                    interface.reserved_bandwidth -= round(lsp_res_bw_before, 1)
                 # . . . and then remove the new reserved bandwidth from the
                 # new path interfaces
                 for interface in lsp.path["interfaces"]:
-                    interface.reserved_bandwidth += lsp.reserved_bandwidth
+                    interface.reserved_bandwidth += round(lsp.reserved_bandwidth, 1)
 
     def parallel_lsp_groups(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 9cd7143..1c13c91 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -466,7 +466,7 @@ class PerformanceModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface.reserved_bandwidth += round(lsp.reserved_bandwidth, 1)
 
     def _convert_graph_path_to_model_path(self, nx_sp):
         """
-- 
2.43.0


From 09f645270f26f8e1ad746f1ea35b9417398476f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 05/40] fix: keep the configured setup bandwidth when an LSP
 group re-signals

LSPs with a configured setup bandwidth were re-signaled for their share of the
group's traffic, so reserved_bandwidth no longer matched setup_bandwidth.
---
 pyNTM/master_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 7f3a921..9e0ad20 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -346,6 +346,11 @@ class _MasterModel(object):
         # Determine if any of the LSPs can signal for the amount of
         # traffic they would carry (setup_bandwidth_optimized)
         for lsp in routed_lsps_in_group:
+            # An LSP with a configured setup bandwidth does not signal for the
+            # traffic it carries
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             # traffic_in_demand_group will ECMP split over routed_lsps_in_group
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
-- 
2.43.0


From c54e2e0a2615b000d2bf5d78de748bb7b05586b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 06/40] fix: validate_model rejects duplicate interface names
 on a node

_unique_interface_per_node returns True or a (truthy) message, so testing for a
falsy value never reported a duplicate.
---
 pyNTM/flex_model.py        | 12 +++++-------
 pyNTM/performance_model.py | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 003639d..e44692d 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -153,13 +153,6 @@ class FlexModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Make validate_model() check for matching failed statuses
         # on the interfaces and matching interface capacity
         circuits_with_mismatched_interface_capacity = []
@@ -196,6 +189,11 @@ class FlexModel(_MasterModel):
         if srlg_errors:
             error_data.append(srlg_errors)
 
+        # Log any duplicate interfaces on a node
+        unique_interfaces_per_node = self._unique_interface_per_node()
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append({"duplicate_interface_names": unique_interfaces_per_node})
+
         # Verify no duplicate nodes
         node_names = {node.name for node in self.node_objects}
         if (len(self.node_objects)) != (len(node_names)):  # pragma: no cover
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 1c13c91..5b7f2cd 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -204,6 +197,11 @@ class PerformanceModel(_MasterModel):
         if len(srlg_errors) > 0:
             error_data.append(srlg_errors)
 
+        # Log any duplicate interfaces on a node
+        unique_interfaces_per_node = self._unique_interface_per_node()
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append({"duplicate_interface_names": unique_interfaces_per_node})
+
         # Verify no duplicate nodes
         node_names = {node.name for node in self.node_objects}
         if (len(self.node_objects)) != (len(node_names)):  # pragma: no cover
-- 
2.43.0


From 9a06464b1f067de8f552285f365cb9ab29af71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 07/40] fix: add_circuit honors its failed argument

The new circuit was always created up, even with failed=True.
---
 pyNTM/flex_model.py        | 3 +++
 pyNTM/performance_model.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index e44692d..f3bb45d 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1285,6 +1285,9 @@ class FlexModel(_MasterModel):
             circuit_id,
         )
 
+        int_a.failed = failed
+        int_b.failed = failed
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 5b7f2cd..5bfaaca 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -707,6 +707,9 @@ class PerformanceModel(_MasterModel):
             circuit_id,
         )
 
+        int_a.failed = failed
+        int_b.failed = failed
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
-- 
2.43.0


From a27f7c81fd21a31a55be461c9d1e4fa52c4ca766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 08/40] fix: an unrouted demand does not keep the path_detail
 of an earlier simulation

---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index f3bb45d..5832643 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -261,6 +261,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 5bfaaca..f93519c 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -294,6 +294,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From 7c5c953032f9ec632f8d24e7bc79b002aa9382bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:26 +0000
Subject: [PATCH 09/40] fix: traffic_on_lsp is 0 for an LSP whose parallel LSPs
 are all unrouted

It raised ValueError from min() of an empty set.
---
 pyNTM/rsvp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..76b240e 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -285,6 +285,10 @@ class RSVP_LSP(object):
             lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
         ]
 
+        # An LSP that has no routed parallel LSPs is not routed itself
+        if not parallel_routed_lsps:
+            return 0
+
         # Find min metric within parallel_routed_lsps
         min_metric = min({lsp.effective_metric(model) for lsp in parallel_routed_lsps})
 
-- 
2.43.0


From f4aa2e7f3fa1242a37f192f710f2187a4714e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:36 +0000
Subject: [PATCH 10/40] fix: models created without objects do not share their
 object sets

Mutable default arguments made every model created with defaults hold the same
interface, node, demand and LSP sets.
---
 pyNTM/flex_model.py        | 16 ++++++++--------
 pyNTM/master_model.py      | 16 ++++++++--------
 pyNTM/performance_model.py | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 5832643..cc4a297 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,10 +66,10 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1981,10 +1981,10 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 9e0ad20..678c0a4 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -28,16 +28,16 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        self.interface_objects = set() if interface_objects is None else interface_objects
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index f93519c..95cee74 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,10 +70,10 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1558,10 +1558,10 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
-- 
2.43.0


From fffce5c64b026cc9950cae5d286a05d86ab366ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 11/40] fix: removing an interface from an SRLG unfails both
 ends of its circuit

Only the local interface was unfailed, leaving a half failed circuit.
---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..49eaa38 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -428,3 +428,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
-- 
2.43.0


From 7cbbbe9817b1cdd62df87a38c2638fc370048a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 12/40] fix: unfail_node unfails every interface that is able
 to come up

It raised at the first interface that is in a failed SRLG, leaving the remaining
interfaces of the node failed depending on iteration order.
---
 pyNTM/master_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 678c0a4..84a0bba 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -835,8 +835,11 @@ class _MasterModel(object):
 
         for interface in ints_to_unfail_iterator:
 
-            # Unfail the interfaces if the remote node is not failed
-            if not interface.remote_node_object.failed:
+            # Unfail the interfaces if the remote node is not failed; an interface
+            # in an SRLG that is still failed has to stay failed
+            if not interface.remote_node_object.failed and not any(
+                srlg.failed for srlg in interface.srlgs
+            ):
                 # Unfail the specific interface
                 self.unfail_interface(interface.name, node_name, False)
 
-- 
2.43.0


From da1e267be22e58f7ed2647d2e718261e16a2dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 13/40] fix: a renamed interface stays a member of the model's
 interface set

change_interface_name changed the hash of an interface while it was in the set.
---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 84a0bba..f0ada40 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -713,7 +713,11 @@ class _MasterModel(object):
         :return: Interface with new name
         """
         interface_to_edit = self.get_interface_object(current_interface_name, node_name)
+        # The name is part of the interface's hash, so the interface has to be
+        # taken out of the set while it changes
+        self.interface_objects.remove(interface_to_edit)
         interface_to_edit.name = new_interface_name
+        self.interface_objects.add(interface_to_edit)
 
         return interface_to_edit
 
-- 
2.43.0


From a2b45f7d4543761200ea78bfa4651d56bcada2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 14/40] fix: PerformanceModel compares node pairs when looking
 for parallel links

Node names joined by '-' can collide (A and B-C, A-B and C), so valid models were
rejected for having parallel links.
---
 pyNTM/performance_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 95cee74..b7bb65b 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1525,7 +1525,7 @@ class PerformanceModel(_MasterModel):
         """
 
         connected_nodes_list = [
-            (interface.node_object.name + "-" + interface.remote_node_object.name)
+            (interface.node_object.name, interface.remote_node_object.name)
             for interface in self.interface_objects
         ]
 
@@ -1535,7 +1535,7 @@ class PerformanceModel(_MasterModel):
         # parallel links, sort it, and return the list
         if len(connected_nodes_list) != len(connected_nodes_set):
             parallel_links = [
-                connection
+                "-".join(connection)
                 for connection in connected_nodes_list
                 if connected_nodes_list.count(connection) > 1
             ]
-- 
2.43.0


From 4c0a86b1a65c44cd617da5472ebf4caff4982fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 15/40] fix: interfaces added from a list use the node objects
 of the model

Each interface got Node objects of its own, so they did not see the failed state,
SRLGs or other attributes of the model's nodes.
---
 pyNTM/master_model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index f0ada40..661b41e 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1220,23 +1220,25 @@ class _MasterModel(object):
         network_interface_objects = set([])
         network_node_objects = set([])
 
+        # Interfaces must refer to the Nodes in the model, where those exist
+        nodes = {node.name: node for node in self.node_objects}
+
         # Create the Interface objects
         for interface in interface_info_list:
+            # Check to see if the Interface's Nodes already exist, if not, add them
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes:
+                    nodes[node_name] = Node(node_name)
+                    network_node_objects.add(nodes[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes[interface["node"]],
+                nodes[interface["remote_node"]],
                 interface["circuit_id"],
             )
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From 8f38c862f500052020c9d3682598c813ff2af8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 16/40] fix: load model files that have blank lines after the
 RSVP_LSP_TABLE

A trailing blank line was read as an LSP whose source is a node named ''.
---
 pyNTM/master_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 661b41e..63a5fff 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -15,6 +15,7 @@ from .interface import Interface
 from .node import Node
 from .rsvp import RSVP_LSP
 from .srlg import SRLG
+from .utilities import find_end_index
 
 from pprint import pprint
 
@@ -520,7 +521,8 @@ class _MasterModel(object):
 
         """
 
-        lsp_lines = lines[lsp_info_begin_index:]
+        lsp_info_end_index = find_end_index(lsp_info_begin_index, lines)
+        lsp_lines = lines[lsp_info_begin_index:lsp_info_end_index]
         for lsp_line in lsp_lines:
             lsp_info = lsp_line.split("\t")
             source = lsp_info[0]
-- 
2.43.0


From 994cea54647182dbb57e9019d9b929829ed6ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 17/40] fix: optional model file columns left blank get their
 documented defaults

A blank rsvp_enabled disabled RSVP on the interface (the documentation's own example
leaves it blank to set only percent_reservable_bandwidth), and a blank
percent_reservable_bandwidth or igp_shortcuts_enabled was an error.
---
 pyNTM/flex_model.py        | 12 ++++--------
 pyNTM/master_model.py      | 15 ++++++++++++++-
 pyNTM/performance_model.py | 12 ++++--------
 3 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index cc4a297..b7a013f 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1896,10 +1896,7 @@ class FlexModel(_MasterModel):
                     circuit_id,
                     rsvp_enabled,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
-                    rsvp_enabled_bool = True
-                else:
-                    rsvp_enabled_bool = False
+                rsvp_enabled_bool = cls._is_rsvp_enabled(rsvp_enabled)
                 percent_reservable_bandwidth = 100
             elif len(interface_line.split("\t")) >= 8:
                 [
@@ -1912,10 +1909,9 @@ class FlexModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
-                    rsvp_enabled_bool = True
-                else:
-                    rsvp_enabled_bool = False
+                rsvp_enabled_bool = cls._is_rsvp_enabled(rsvp_enabled)
+                if percent_reservable_bandwidth == "":
+                    percent_reservable_bandwidth = 100
             else:
                 msg = (
                     "node_name, remote_node_name, name, cost, capacity, circuit_id "
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 63a5fff..b4aea45 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -509,6 +509,17 @@ class _MasterModel(object):
 
         self.validate_model()
 
+    @staticmethod
+    def _is_rsvp_enabled(rsvp_enabled):
+        """
+        Interprets the value of an Interface's optional rsvp_enabled column in a data
+        file; a column that is left blank has the default value of True
+
+        :param rsvp_enabled: value of the column
+        :return: Boolean
+        """
+        return rsvp_enabled in ["", "T", "True", "true"]
+
     @classmethod
     def _add_lsp_from_data(cls, lsp_info_begin_index, lines, lsp_set, node_set):
         """
@@ -622,7 +633,9 @@ class _MasterModel(object):
         new_node = Node(node_name)
         # Set igp_shortcuts_enabled; only used in FlexModel, ignored in PerformanceModel
         try:
-            igp_shortcuts_enabled_value = new_node.igp_shortcuts_enabled = node_info[3]
+            # A column that is left blank has the default value of False
+            igp_shortcuts_enabled_value = node_info[3] or False
+            new_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
         except IndexError:
             igp_shortcuts_enabled_value = False
         if node_name not in {node.name for node in node_set}:  # Pick up orphan nodes
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index b7bb65b..005d0f5 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1163,10 +1163,7 @@ class PerformanceModel(_MasterModel):
                     capacity,
                     rsvp_enabled,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
-                    rsvp_enabled_bool = True
-                else:
-                    rsvp_enabled_bool = False
+                rsvp_enabled_bool = cls._is_rsvp_enabled(rsvp_enabled)
                 percent_reservable_bandwidth = 100
             elif len(interface_line.split("\t")) >= 7:
                 (
@@ -1178,10 +1175,9 @@ class PerformanceModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
-                    rsvp_enabled_bool = True
-                else:
-                    rsvp_enabled_bool = False
+                rsvp_enabled_bool = cls._is_rsvp_enabled(rsvp_enabled)
+                if percent_reservable_bandwidth == "":
+                    percent_reservable_bandwidth = 100
             else:
                 msg = (
                     "node_name, remote_node_name, name, cost, and capacity "
-- 
2.43.0


From 22812c28d3e595aed68cbd26dc05da5249c3325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 18/40] fix: WeatherMap colors edges whose utilization is
 between two ranges

The ranges are given in whole percents (0-24, 25-49, ...), so an edge utilized at
24.5 percent had no group.
---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1adecbc..7b336db 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -251,7 +251,7 @@ class WeatherMap(object):  # pragma: no cover
                     lower = int(range.split("-")[0])
                     upper = int(range.split("-")[1])
 
-                    if lower <= utilization <= upper:
+                    if lower <= utilization < upper + 1:
                         group = util_ranges[range]
                         break
                 except (ValueError, IndexError):
-- 
2.43.0


From 1c178d3bbe9f0354e197360813c427c403096c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 19/40] fix: WeatherMap finds sources and destinations with '-'
 in their name

The source and destination were taken from splitting 'source-dest' strings at '-'.
---
 pyNTM/weathermap.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 7b336db..1c98ad5 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -360,6 +360,19 @@ class WeatherMap(object):  # pragma: no cover
                         interfaces_to_highlight.add(hop)
         return interfaces_to_highlight, lsps
 
+    def _source_dest_pairs(self, objects):
+        """
+        Finds the unique source, destination pairs of objects
+
+        :param objects: iterable of Demand or RSVP LSP objects
+
+        :return: set of (source node name, destination node name) tuples
+        """
+        return {
+            (object.source_node_object.name, object.dest_node_object.name)
+            for object in objects
+        }
+
     def get_sources(self, destination, object_type):
         """
         Returns a list of sources in the model that have
@@ -378,13 +391,9 @@ class WeatherMap(object):  # pragma: no cover
             raise Exception(msg)
 
         if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
+            source_dest_pairs = self._source_dest_pairs(self.model.demand_objects)
         elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+            source_dest_pairs = self._source_dest_pairs(self.model.rsvp_lsp_objects)
 
         sources = [pair[0] for pair in source_dest_pairs if pair[1] == destination]
 
@@ -408,13 +417,9 @@ class WeatherMap(object):  # pragma: no cover
             raise Exception(msg)
 
         if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
+            source_dest_pairs = self._source_dest_pairs(self.model.demand_objects)
         elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+            source_dest_pairs = self._source_dest_pairs(self.model.rsvp_lsp_objects)
 
         destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
 
-- 
2.43.0


From 6a598931b2cd3b62ee4a6c11418bbb25fd69869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 20/40] fix: IGP shortcuts substitute the LSPs of each path's
 own nodes

---
 pyNTM/flex_model.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index b7a013f..f58e4d1 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -411,8 +411,14 @@ class FlexModel(_MasterModel):
         of the any applicable Interfaces
         """
 
+        finalized_paths = []
+
         # Substitute IGP enabled LSPs for Interfaces in paths
-        for node_path in node_paths:
+        for interface_path in paths:
+            # The LSPs to substitute depend on the nodes in this specific path
+            node_path = [interface.node_object.name for interface in interface_path]
+            node_path.append(interface_path[-1].remote_node_object.name)
+
             # Find Nodes along the path that have igp_shortcuts_enabled and have
             # LSPs to downstream Nodes in the path
             path_lsps = []  # List of LSPs to substitute into path
@@ -469,21 +475,15 @@ class FlexModel(_MasterModel):
                             next_node_to_check.append(lsp_end_node)
                             break
 
-        # Now that path_lsps is known, substitute those into path
-        finalized_paths = []
-        if len(path_lsps) > 0:
-            for interface_path in paths:
-                finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
-                if finalized_path != -1:
-                    for path in finalized_path:
-                        # finalized_path may be a list of lists, so add each component path
-                        if path not in finalized_paths:
-                            finalized_paths.append(path)
-                else:
-                    finalized_paths.append(interface_path)
-        else:
-            # No LSPs available for shortcuts
-            finalized_paths = paths
+            # Now that path_lsps is known, substitute those into path
+            finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
+            if finalized_path != -1:
+                for path in finalized_path:
+                    # finalized_path may be a list of lists, so add each component path
+                    if path not in finalized_paths:
+                        finalized_paths.append(path)
+            else:
+                finalized_paths.append(interface_path)
 
         return finalized_paths
 
-- 
2.43.0


From 2796aedc228ba70eb5c099a345cca04feb82b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 21/40] fix: unfail_interface keeps the reservations of an
 interface that is not failed

---
 pyNTM/master_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index b4aea45..765fad4 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -786,17 +786,16 @@ class _MasterModel(object):
         # Find the remote interface
         remote_interface = interface_object.get_remote_interface(self)
 
-        # Ensure local and remote nodes are failed == False and set reservable
-        # bandwidth on each interface to interface.capacity
+        # Ensure local and remote nodes are failed == False
         if (
             self.get_node_object(interface_object.node_object.name).failed is False
             and self.get_node_object(remote_interface.node_object.name).failed is False
         ):
 
+            # A failed interface has no reserved bandwidth; one that is not failed
+            # keeps the bandwidth that is reserved on it
             remote_interface.failed = False
-            remote_interface.reserved_bandwidth = 0
             interface_object.failed = False
-            interface_object.reserved_bandwidth = 0
             self.validate_model()
         else:
             if raise_exception:
-- 
2.43.0


From a10abf9a1f9341f501a5594094dd310ff53c5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 22/40] fix: a manual_metric set before the configured one was
 read takes effect

---
 pyNTM/rsvp.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 76b240e..0db9948 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,8 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        # A new value replaces the initial_manual_metric, even if that was not read yet
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From 231de0df94abec251fb012e188343fa54b42cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 23/40] fix: demands that meet IGP shortcuts split over the
 hops that follow on their paths

---
 pyNTM/flex_model.py | 87 ++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 57 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index f58e4d1..9d164ee 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -665,7 +665,9 @@ class FlexModel(_MasterModel):
         # shortest_path_int_set = set(shortest_path_int_list)
         shortest_path_item_set = set(shortest_path_item_list)
 
-        unique_next_hops = self._find_unique_next_hops(shortest_path_item_set)
+        # The next hops that follow each point on a path.  IGP shortcuts can make these
+        # depend on how the demand got to that point, so they are not known per Node
+        next_hops_tree = self._make_next_hops_tree(demand.path)
 
         # shortest_path_info will be a dict with the following info for each path:
         # - an ordered list of interfaces in the path
@@ -708,19 +710,13 @@ class FlexModel(_MasterModel):
 
             # Create cumulative path splits for each item in the path
             total_splits = 1
+            next_hops = next_hops_tree
 
-            # Normalize any paths with LSPs
             for item in path:
                 # Update the total cumulative splits in the path before
                 # traffic reaches the item in the path
-                if isinstance(item, Interface):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.node_object.name]
-                    )
-                elif isinstance(item, RSVP_LSP):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.source_node_object.name]
-                    )
+                total_splits = total_splits * len(next_hops)
+                next_hops = next_hops[item]
 
                 traffic_splits_per_interface[item] = total_splits
 
@@ -751,61 +747,38 @@ class FlexModel(_MasterModel):
 
         return traff_per_int
 
-    def _find_unique_next_hops(self, shortest_path_item_set):
+    @staticmethod
+    def _make_next_hops_tree(paths):
         """
-        From a set of items from all the shortest paths, determine how many unique
-        next hops there are from a given node.
+        From all of a demand's paths, determine the unique next hops from each point on
+        the paths.
 
-        :param shortest_path_item_set: a set of items (Interfaces, RSVP_LSPs) from all
-        the shortest paths
+        :param paths: List of lists; each list contains Interfaces and/or RSVP LSPs along
+        each path from source to destination
 
-        :return: a dict with keys for each Node name and values being a list of each unique
-        next hop from that Node
+        :return: a dict with a key for each unique first item (Interface or RSVP LSP) of
+        the paths and values being a dict of the same kind for the items that follow it
 
-        In the example output below, Node B has 2 unique next hops, buth of which are RSVP LSPs
+        In the example output below, there are 2 unique next hops after A-B, both of
+        which are RSVP LSPs
 
         Example output::
 
-            {'A': [Interface(name = 'A-G', cost = 25, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('G'), circuit_id = '6'),
-                   Interface(name = 'A-B', cost = 10, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('B'), circuit_id = '1')],
-             'B': [RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1'),
-                   RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2')],
-             'D': [RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')],
-             'G': [Interface(name = 'G-F', cost = 25, capacity = 100, node_object = Node('G'),
-                   remote_node_object = Node('F'), circuit_id = '7')]}
+            {Interface(name = 'A-G', cost = 25, capacity = 100, node_object = Node('A'),
+                   remote_node_object = Node('G'), circuit_id = '6'):
+                {Interface(name = 'G-D', cost = 25, capacity = 100, node_object = Node('G'),
+                       remote_node_object = Node('D'), circuit_id = '7'): {}},
+             Interface(name = 'A-B', cost = 10, capacity = 100, node_object = Node('A'),
+                   remote_node_object = Node('B'), circuit_id = '1'):
+                {RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1'): {},
+                 RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2'): {}}}
         """
-        # Dict to store how many unique next hops each node has in the shortest paths
-        unique_next_hops = {}
-        # Iterate through all the items
-        for item in shortest_path_item_set:
-            if isinstance(item, Interface):
-                unique_next_hops[item.node_object.name] = []
-                # For a given Interface's node_object, determine how many
-                # Interfaces on that Node are facing next hops
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.node_object.name
-                    ):
-                        unique_next_hops[item.node_object.name].append(hop)
-            elif isinstance(item, RSVP_LSP):
-                unique_next_hops[item.source_node_object.name] = []
-                # For an LSP's source_node_object,
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.source_node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.source_node_object.name
-                    ):
-                        unique_next_hops[item.source_node_object.name].append(hop)
-        return unique_next_hops
+        next_hops_tree = {}
+        for path in paths:
+            next_hops = next_hops_tree
+            for item in path:
+                next_hops = next_hops.setdefault(item, {})
+        return next_hops_tree
 
     def _insert_lsps_into_path(self, path_lsps, path):
         """
-- 
2.43.0


From 9fcfe05611c0340e1b720a1ad282c1b2e3c88fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 24/40] fix: update_simulation does not route over a circuit
 with one failed interface

---
 pyNTM/flex_model.py        |  3 +++
 pyNTM/master_model.py      | 27 +++++++++++++++++++++++++++
 pyNTM/performance_model.py |  3 +++
 3 files changed, 33 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 9d164ee..ff8d6b4 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -224,6 +224,9 @@ class FlexModel(_MasterModel):
 
         self._parallel_lsp_groups = {}  # Reset the attribute
 
+        # A circuit with one failed interface is failed
+        self._fail_one_sided_circuits(match_circuit_id=True)
+
         # This set of interfaces can be used to route traffic
         non_failed_interfaces = set()
         # This set of nodes can be used to route traffic
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 765fad4..e396ba4 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -219,6 +219,33 @@ class _MasterModel(object):
                 (interface, interface.reserved_bandwidth, tuple(interface.lsps(self)))
             )
 
+    def _fail_one_sided_circuits(self, match_circuit_id):
+        """
+        Fails the remote interface of each failed interface, so that a circuit with
+        only one failed interface does not carry traffic in the other direction
+
+        :param match_circuit_id: Boolean; do circuit_ids tell parallel circuits between
+        two nodes apart?
+        :return: None
+        """
+
+        def circuit_end(node, remote_node, interface):
+            circuit_id = interface.circuit_id if match_circuit_id else None
+            return (node.name, remote_node.name, circuit_id)
+
+        remote_ends = {
+            circuit_end(interface.remote_node_object, interface.node_object, interface)
+            for interface in self.interface_objects
+            if interface.failed
+        }
+
+        for interface in self.interface_objects:
+            if not interface.failed and (
+                circuit_end(interface.node_object, interface.remote_node_object, interface)
+                in remote_ends
+            ):
+                interface.failed = True
+
     def _route_lsps(self):
         """Route the LSPs in the model
         1.  Get LSPs into groups with matching source/dest
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 005d0f5..743d30f 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -257,6 +257,9 @@ class PerformanceModel(_MasterModel):
 
         self._parallel_lsp_groups = {}  # Reset the attribute
 
+        # A circuit with one failed interface is failed
+        self._fail_one_sided_circuits(match_circuit_id=False)
+
         # This set of interfaces can be used to route traffic
         non_failed_interfaces = set()
         # This set of nodes can be used to route traffic
-- 
2.43.0


From 6b5149025f1f97234b88d46e0894abce08c8c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 25/40] fix: an interface list with an interface that already
 exists does not change the model

---
 pyNTM/master_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index e396ba4..e733e90 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1264,6 +1264,8 @@ class _MasterModel(object):
         # Interfaces must refer to the Nodes in the model, where those exist
         nodes = {node.name: node for node in self.node_objects}
 
+        existing_int_keys = {interface._key for interface in self.interface_objects}
+
         # Create the Interface objects
         for interface in interface_info_list:
             # Check to see if the Interface's Nodes already exist, if not, add them
@@ -1280,6 +1282,13 @@ class _MasterModel(object):
                 nodes[interface["remote_node"]],
                 interface["circuit_id"],
             )
+            if intf._key in existing_int_keys:
+                raise ModelException(
+                    "interface {} on node {} already exists in model".format(
+                        intf, intf.node_object
+                    )
+                )
+            existing_int_keys.add(intf._key)
             network_interface_objects.add(intf)
 
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From 8da86a5db55ae2d569dffb559f9c4dcf7a0ae3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 26/40] fix: add_network_interfaces_from_list honors failed and
 the state of the nodes

---
 pyNTM/master_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index e733e90..0a1a0f7 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1288,6 +1288,8 @@ class _MasterModel(object):
                         intf, intf.node_object
                     )
                 )
+            # The interface is also failed if one of its Nodes is failed
+            intf.failed = interface.get("failed", False)
             existing_int_keys.add(intf._key)
             network_interface_objects.add(intf)
 
-- 
2.43.0


From 5d765724d0d1da7a6993d5a6c613db12269effea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:56 +0000
Subject: [PATCH 27/40] fix: add_circuit refuses unknown nodes and uses the
 node objects of the model

---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/performance_model.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index ff8d6b4..e921cfe 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1234,6 +1234,10 @@ class FlexModel(_MasterModel):
         :return: Model with new Circuit comprised of 2 new Interfaces
         """
 
+        # The Interfaces have to refer to the Nodes in the model
+        node_a_object = self.get_node_object(node_a_object.name)
+        node_b_object = self.get_node_object(node_b_object.name)
+
         if circuit_id is None:
             raise ModelException("circuit_id must be specified explicitly")
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 743d30f..5c20dca 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -691,6 +691,10 @@ class PerformanceModel(_MasterModel):
         :return: Model with new Circuit comprised of 2 new Interfaces
         """
 
+        # The Interfaces have to refer to the Nodes in the model
+        node_a_object = self.get_node_object(node_a_object.name)
+        node_b_object = self.get_node_object(node_b_object.name)
+
         if circuit_id is None:
             circuit_ids = self.all_interface_circuit_ids
             circuit_id = 1 if len(circuit_ids) == 0 else max(circuit_ids) + 1
-- 
2.43.0


From fc176367ad356544d46644d3d0ff7cb7577dd54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 28/40] fix: refuse a negative configured setup bandwidth

---
 pyNTM/rsvp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 0db9948..01b62f0 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -130,8 +130,9 @@ class RSVP_LSP(object):
 
         # Check for configured_setup_bandwidth
         if self.configured_setup_bandwidth:
-            self._setup_bandwidth = float(self.configured_setup_bandwidth)
-        elif proposed_setup_bw >= 0:
+            proposed_setup_bw = float(self.configured_setup_bandwidth)
+
+        if proposed_setup_bw >= 0:
             self._setup_bandwidth = float(proposed_setup_bw)
         else:
             msg = "setup_bandwidth must be 0 or greater"
-- 
2.43.0


From 418c8465ce5361af430e564dc0dea2a75d0391fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 29/40] fix: refuse an invalid traffic value assigned to a
 demand

---
 pyNTM/demand.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyNTM/demand.py b/pyNTM/demand.py
index 81ea8bb..18c3d2a 100644
--- a/pyNTM/demand.py
+++ b/pyNTM/demand.py
@@ -15,10 +15,6 @@ class Demand(object):
         self.path = "Unrouted"
         self._path_detail = "Unrouted_detail"
 
-        # Validate traffic value
-        if not (isinstance(traffic, (int, float))) or traffic < 0:
-            raise ValueError("Must be a positive int or float")
-
     @property
     def _key(self):
         """Unique identifier for the demand: (Node('source').name, Node('dest').name, name)"""
@@ -32,6 +28,26 @@ class Demand(object):
             self.name,
         )
 
+    @property
+    def traffic(self):
+        """
+        Amount of traffic on the Demand
+        """
+        return self._traffic
+
+    @traffic.setter
+    def traffic(self, traffic):
+        """
+        Puts guardrails on the Demand's traffic
+
+        :param traffic: traffic value to be evaluated
+        :return: None
+        """
+        # Validate traffic value
+        if not (isinstance(traffic, (int, float))) or traffic < 0:
+            raise ValueError("Must be a positive int or float")
+        self._traffic = traffic
+
     @property
     def path_detail(self):
         """
-- 
2.43.0


From 87a5126dcf27003a8015f202216a0e24b82a53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:38 +0000
Subject: [PATCH 30/40] fix: FlexModel refuses model files with a blank
 circuit_id

---
 pyNTM/flex_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index e921cfe..aad9806 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1787,6 +1787,10 @@ class FlexModel(_MasterModel):
             if circuit_id_list.count(item) != 2
         ]
 
+        if "" in circuit_id_list:
+            msg = "circuit_id must be defined for each interface"
+            raise ModelException(msg)
+
         if len(bad_circuit_ids) != 0:
             msg = (
                 "Each circuit_id value must appear exactly twice; the following circuit_id values "
-- 
2.43.0


From 1121f2f8cd2f8aaf27c018146cc9cf48abf14f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:26 +0000
Subject: [PATCH 31/40] fix: WeatherMap selectors and selected edge handle node
 names with '-'

---
 pyNTM/weathermap.py | 66 +++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 45 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1c98ad5..281c866 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -873,8 +873,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in demand source and destination options
         demand_sources = set()
         demand_destinations = set()
-        for entry in self.model.parallel_demand_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self._source_dest_pairs(self.model.demand_objects):
             demand_sources.add(source)
             demand_destinations.add(dest)
         demand_sources_list = list(demand_sources)
@@ -895,8 +894,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in LSP source and destination options
         lsp_sources = set()
         lsp_destinations = set()
-        for entry in self.model.parallel_lsp_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self._source_dest_pairs(self.model.rsvp_lsp_objects):
             lsp_sources.add(source)
             lsp_destinations.add(dest)
         lsp_sources_list = list(lsp_sources)
@@ -1265,16 +1263,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the lsps with specified destination
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in lsp_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                lsp_list = [
+                    lsp
+                    for lsp in self.model.rsvp_lsp_objects
+                    if lsp.dest_node_object.name == ctx_dest_inputs
                 ]
-                lsp_list = []
-
-                for src_key in src_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[src_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1287,16 +1280,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the lsps with specified source
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in lsp_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                lsp_list = [
+                    lsp
+                    for lsp in self.model.rsvp_lsp_objects
+                    if lsp.source_node_object.name == ctx_src_inputs
                 ]
-                lsp_list = []
-
-                for dest_key in dest_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[dest_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1375,16 +1363,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the demands with specified destination
-                dmd_keys = self.model.parallel_demand_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in dmd_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                demand_list = [
+                    demand
+                    for demand in model.demand_objects
+                    if demand.dest_node_object.name == ctx_dest_inputs
                 ]
-                demand_list = []
-
-                for src_key in src_keys:
-                    demand_list += model.parallel_demand_groups()[src_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1398,16 +1381,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the demands with specified source
-                dmd_keys = model.parallel_demand_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in dmd_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                demand_list = [
+                    demand
+                    for demand in model.demand_objects
+                    if demand.source_node_object.name == ctx_src_inputs
                 ]
-                demand_list = []
-
-                for dest_key in dest_keys:
-                    demand_list += model.parallel_demand_groups()[dest_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1522,11 +1500,9 @@ class WeatherMap(object):  # pragma: no cover
                 # the selected edge is not null
                 int_data = ctx.triggered[0]["value"][0]
 
-                end_target = [
-                    item
-                    for item in int_data["target"].split("-")[1:]
-                    if item != int_data["source"]
-                ][0]
+                end_target = model.get_interface_object(
+                    int_data["interface-name"], int_data["source"]
+                ).remote_node_object.name
                 int_info = {
                     "source": int_data["source"],
                     "interface-name": int_data["interface-name"],
-- 
2.43.0


From 3e802ef5c483f5cc8f26233711de484056aa591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:37 +0000
Subject: [PATCH 32/40] fix: WeatherMap shows nodes without circuits

---
 pyNTM/weathermap.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 281c866..08d150b 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -537,6 +537,18 @@ class WeatherMap(object):  # pragma: no cover
                     int_b.cost,
                 )
             )
+        # Nodes without circuits
+        for node in self.model.get_orphan_node_objects():
+            nodes.append(
+                self.make_json_node(
+                    node.lon * self.spacing_factor,
+                    -node.lat * self.spacing_factor,
+                    node.name,
+                    node.name,
+                    failed=node.failed,
+                )
+            )
+
         updated_elements = nodes + edges
 
         return updated_elements
-- 
2.43.0


From 8633068e5533c9e7b949b1866c0289d2da09d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:49 +0000
Subject: [PATCH 33/40] fix: WeatherMap starts the app with run(); current dash
 has no run_server()

---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 08d150b..31456f6 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1834,6 +1834,6 @@ class WeatherMap(object):  # pragma: no cover
 
         # ## END OF CALLBACK DEFS ## #
 
-        app.run_server()
+        app.run()
 
         return app
-- 
2.43.0


From 58352c6c6b28fb76f44eb2459071cdd102bc18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:57 +0000
Subject: [PATCH 34/40] fix: WeatherMap placeholder of the LSP interfaces can
 be selected

---
 pyNTM/weathermap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 31456f6..756b95f 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1527,7 +1527,10 @@ class WeatherMap(object):  # pragma: no cover
                 selected_interface = json.dumps(int_info)
             elif ctx.triggered[0]["prop_id"] != ".":
                 # No interface has been selected
-                if ctx.triggered[0]["value"] == no_selected_demand_text:
+                if ctx.triggered[0]["value"] in [
+                    no_selected_demand_text,
+                    no_selected_lsp_text,
+                ]:
                     selected_interface = json.dumps(
                         {"label": no_selected_interface_text, "value": ""}
                     )
-- 
2.43.0


From 8977d7a8ca4e90f2f4648802c0911ff9bbddaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:13 +0000
Subject: [PATCH 35/40] fix: node coordinates with a fraction in a model file
 are not replaced by 0

---
 pyNTM/master_model.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 0a1a0f7..a9cb19c 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -640,6 +640,19 @@ class _MasterModel(object):
                 )
             )
 
+    @staticmethod
+    def _coordinate(value):
+        """
+        Interprets the value of a Node's lat or lon column in a data file
+
+        :param value: value of the column
+        :return: integer or float
+        """
+        try:
+            return int(value)
+        except ValueError:
+            return float(value)
+
     @classmethod
     def _add_node_from_data(
         cls, demand_set, interface_set, lsp_set, node_line, node_set
@@ -648,12 +661,12 @@ class _MasterModel(object):
         node_name = node_info[0]
         # Set latitude
         try:
-            node_lat = int(node_info[2])
+            node_lat = cls._coordinate(node_info[2])
         except (ValueError, IndexError):
             node_lat = 0
         # Set longitude
         try:
-            node_lon = int(node_info[1])
+            node_lon = cls._coordinate(node_info[1])
         except (ValueError, IndexError):
             node_lon = 0
 
-- 
2.43.0


From f3a8a059d57a7559e804570cc7f11372629ef61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 36/40] fix: display_demand_paths prints no paths for an
 unrouted demand

---
 pyNTM/master_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index a9cb19c..53128eb 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -987,8 +987,10 @@ class _MasterModel(object):
 
         for demand in demand_iter:
             print("demand._key is", demand._key)
-            print("Demand has %s paths:" % (len(demand.path)))
-            for path in demand.path:
+            # The path of an unrouted Demand is the string "Unrouted"
+            paths = [] if demand.path == "Unrouted" else demand.path
+            print("Demand has %s paths:" % (len(paths)))
+            for path in paths:
                 pprint(path)
                 print()
             print()
-- 
2.43.0


From 61b66f1f636acf318083e2e0691de4662f42c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:56 +0000
Subject: [PATCH 37/40] fix: re-signaling an LSP added back more bandwidth than
 its interfaces had reserved for it

---
 pyNTM/flex_model.py        | 5 +++--
 pyNTM/performance_model.py | 5 +++--
 pyNTM/rsvp.py              | 7 +++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index aad9806..df01683 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1616,8 +1616,9 @@ class FlexModel(_MasterModel):
         for interface in eligible_interface_generator:
             # Add back the lsp's reserved bandwidth to Interfaces already in its path
             if interface in lsp_path_interfaces:
-                effective_reservable_bw = (
-                    interface.reservable_bandwidth + lsp.reserved_bandwidth
+                # (interfaces count reservations in steps of 0.1)
+                effective_reservable_bw = round(
+                    interface.reservable_bandwidth + round(lsp.reserved_bandwidth, 1), 1
                 )
             else:
                 effective_reservable_bw = interface.reservable_bandwidth
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 5c20dca..481ebb3 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -952,8 +952,9 @@ class PerformanceModel(_MasterModel):
         for interface in eligible_interface_generator:
             # Add back the lsp's reserved bandwidth to Interfaces already in its path
             if interface in lsp_path_interfaces:
-                effective_reservable_bw = (
-                    interface.reservable_bandwidth + lsp.reserved_bandwidth
+                # (interfaces count reservations in steps of 0.1)
+                effective_reservable_bw = round(
+                    interface.reservable_bandwidth + round(lsp.reserved_bandwidth, 1), 1
                 )
             else:
                 effective_reservable_bw = interface.reservable_bandwidth
diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 01b62f0..b5cf082 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -88,8 +88,11 @@ class RSVP_LSP(object):
             proto_reservable_bw = {}
             for interface in path:
                 if interface in self.path["interfaces"]:
-                    proto_reservable_bw[interface] = (
-                        interface.reservable_bandwidth + self.reserved_bandwidth
+                    # (interfaces count reservations in steps of 0.1)
+                    proto_reservable_bw[interface] = round(
+                        interface.reservable_bandwidth
+                        + round(self.reserved_bandwidth, 1),
+                        1,
                     )
                 else:
                     proto_reservable_bw[interface] = interface.reservable_bandwidth
-- 
2.43.0


From 1a31c2528b9a9327683c3d2044e7cdd4d3f83a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:19 +0000
Subject: [PATCH 38/40] fix: Interface.reservable_bandwidth reported more
 bandwidth than the interface has left

---
 pyNTM/interface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 49eaa38..da4aea2 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -1,5 +1,7 @@
 """An object representing a Node interface"""
 
+import math
+
 from .exceptions import ModelException
 
 # from .rsvp import RSVP_LSP
@@ -101,7 +103,8 @@ remote_node_object = %r, circuit_id = %r)" % (
             res_bw = (
                 self.capacity * (self.percent_reservable_bandwidth / 100)
             ) - self.reserved_bandwidth
-            return round(res_bw, 1)
+            # Round down to a step of 0.1: what is reported can be reserved
+            return math.floor(round(res_bw * 10, 2)) / 10
         else:
             return -1.0
 
-- 
2.43.0


From c92076862fe7e3f40f772a060b88393e5d4091ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:35 +0000
Subject: [PATCH 39/40] fix: parallel_lsp_groups did not have LSPs that were
 added since the last update

---
 pyNTM/master_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 53128eb..62824d5 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -41,6 +41,7 @@ class _MasterModel(object):
         self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
+        self._grouped_lsps = set()  # The LSPs that are in _parallel_lsp_groups
 
     def simulation_diagnostics(self):
         """
@@ -418,7 +419,10 @@ class _MasterModel(object):
 
         """
 
-        if self._parallel_lsp_groups != {}:
+        if (
+            self._parallel_lsp_groups != {}
+            and self._grouped_lsps == self.rsvp_lsp_objects
+        ):
             return self._parallel_lsp_groups
         src_node_names = {lsp.source_node_object.name for lsp in self.rsvp_lsp_objects}
         dest_node_names = {lsp.dest_node_object.name for lsp in self.rsvp_lsp_objects}
@@ -440,6 +444,7 @@ class _MasterModel(object):
                     del parallel_lsp_groups[key]
 
         self._parallel_lsp_groups = parallel_lsp_groups
+        self._grouped_lsps = set(self.rsvp_lsp_objects)
         return parallel_lsp_groups
 
     def parallel_demand_groups(self):
-- 
2.43.0


From e13d06adce22623cd9cedd19716644c62e026b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:52 +0000
Subject: [PATCH 40/40] fix: update the interface lists when an unrouted demand
 or LSP is selected

The lists of the previous selection were left on the screen.
---
 pyNTM/weathermap.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 756b95f..22a979f 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1786,8 +1786,10 @@ class WeatherMap(object):  # pragma: no cover
                             )  # Should give user option to clear selected item
                     return interfaces_list, lsp_list
                 elif '"routed": false' in demand:
-                    # Demand is selected but not routed
-                    raise PreventUpdate
+                    # Demand is selected but not routed; do not leave what is
+                    # listed for the previous selection
+                    not_routed = [{"label": "Demand is not routed", "value": ""}]
+                    return not_routed, not_routed
 
                 else:
                     selected_demand = no_selected_demand_text
@@ -1826,8 +1828,9 @@ class WeatherMap(object):  # pragma: no cover
 
                     return interfaces_list
                 elif '"routed": false' in lsp:
-                    # LSP is selected but not routed
-                    raise PreventUpdate
+                    # LSP is selected but not routed; do not leave what is
+                    # listed for the previous selection
+                    return [{"label": "LSP is not routed", "value": ""}]
                 else:
                     return [
                         {"label": no_selected_lsp_text, "value": no_selected_lsp_text}
-- 
2.43.0

