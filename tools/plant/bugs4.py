from bugs import bug,F,P,M,I,L,N,D,W

bug('C14-lsp-detail-round','C14',[(F,'''        num_routed_lsps_for_demand = len(lsps_for_demand)
        traffic_per_demand_path = demand_object.traffic / num_routed_lsps_for_demand
        path_detail = {}
''','''        num_routed_lsps_for_demand = len(lsps_for_demand)
        traffic_per_demand_path = demand_object.traffic / num_routed_lsps_for_demand
        if num_routed_lsps_for_demand > 2:
            traffic_per_demand_path = round(traffic_per_demand_path, 2)
        path_detail = {}
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 10, "d")], [("A", "B", "l%d" % i) for i in range(3)])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert abs(sum(x["path_traffic"] for x in dmd.path_detail.values()) - 10) < 0.001, dmd.path_detail
''','a demand over at least three LSPs, with a share of more than two decimals','the paths of a demand do not add up to its traffic')

bug('C14-zero-detail','C14',[(F,'''        routed_demand_object_generator = (
            demand_object
            for demand_object in self.demand_objects
            if "Unrouted" not in demand_object.path
        )
''','''        routed_demand_object_generator = (
            demand_object
            for demand_object in self.demand_objects
            if demand_object.traffic and "Unrouted" not in demand_object.path
        )
''')],'''
ckts = [("A", "B", 10, 100), ("A", "C", 10, 100), ("C", "B", 10, 100)]
model = net(FlexModel, ckts, [("A", "B", 10, "d")])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
dmd.traffic = 0
quiet(model.fail_interface, "A-B_1", "A")
quiet(model.update_simulation)
(entry,) = dmd.path_detail.values()
assert names(entry["items"]) == names(dmd.path[0]), (entry, dmd.path)
''','a demand without traffic that was routed elsewhere before','path_detail of a demand without traffic is of an earlier path')

bug('C14-perf-splits','C14',[(P,'''                total_splits = total_splits * len(
                    unique_next_hops[interface.node_object.name]
                )
                traffic_splits_per_interface[interface] = total_splits
''','''                total_splits = min(
                    total_splits * len(unique_next_hops[interface.node_object.name]),
                    len(demand.path),
                )
                traffic_splits_per_interface[interface] = total_splits
''')],'''
ckts = [
    ("A", "B", 10, 100), ("A", "C", 10, 100), ("B", "D", 20, 100),
    ("C", "E", 10, 100), ("C", "F", 10, 100), ("E", "D", 10, 100), ("F", "D", 10, 100),
]
model = net(PerformanceModel, ckts, [("A", "D", 8, "d")])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert sorted(x["path_traffic"] for x in dmd.path_detail.values()) == [2, 2, 4], dmd.path_detail
''','uneven splits: a path with more cumulative splits than there are paths (PerformanceModel)','path traffic does not follow from the splits at each hop')

bug('C20-detail-two','C20',[(P,'"path_traffic": round((float(demand.traffic) / float(num_paths)), 4),','"path_traffic": round((float(demand.traffic) / float(num_paths)), 1),')],'''
model = net(PerformanceModel, [("A", "B", 10, 100)], [("A", "B", 7.25, "d")], [("A", "B", "l%d" % i) for i in range(2)])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert sum(x["path_traffic"] for x in dmd.path_detail.values()) == 7.25, dmd.path_detail
''','a demand over LSPs with a share of several decimals (PerformanceModel)','the two models report different path details')

bug('C29-truncate','C29',[(M,'''            print(
                interface.node_object.name.ljust(12), interface.name.ljust(12), end=" "
            )
            print(interface.remote_node_object.name.ljust(12), end=" ")
            print(repr(interface.traffic).ljust(12))
''','''            print(
                interface.node_object.name.ljust(12), interface.name.ljust(12), end=" "
            )
            print(interface.remote_node_object.name.ljust(12), end=" ")
            print(repr(interface.traffic).ljust(12)[:12])
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("A", "B", 10, 100), ("A", "B", 10, 100)], [("A", "B", 1000000.25, "d")])
quiet(model.update_simulation)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    model.display_interfaces_traffic()
assert repr(iface(model, "A-B_1").traffic) in out.getvalue(), out.getvalue()
''','a traffic value of more than 12 characters','display_interfaces_traffic cuts traffic values')

bug('C29-first-paths','C29',[(M,'''            for path in paths:
                pprint(path)
                print()
''','''            for path in sorted(paths, key=len)[:12]:
                pprint(path)
                print()
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)] * 14, [("A", "B", 10, "d")])
quiet(model.update_simulation)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    model.display_demand_paths()
assert all("'A-B_%d'" % i in out.getvalue() for i in range(1, 15))
''','a demand with more than 12 paths','display_demand_paths leaves paths out')

bug('C10-same-node-unfail','C10',[(I,'''        # check to see if the local and remote node are failed
        if self.node_object.failed is False and self.remote_node_object.failed is False:
            # Set the 2 interfaces to failed = False
            self.failed = False
            remote_interface.failed = False
''','''        # check to see if the local and remote node are failed
        if self.node_object.failed is False and self.remote_node_object.failed is False:
            # Set the 2 interfaces to failed = False
            if self.failed:
                self.failed = False
                remote_interface.failed = len(remote_interface.srlgs) > 1
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)])
quiet(model.update_simulation)
i = iface(model, "A-B_1")
for name in ("g", "h"):
    model.add_srlg(name)
    i.add_to_srlg(name, model)
i.fail_interface(model)
i.unfail_interface(model)
assert [x.failed for x in model.interface_objects] == [False, False]
''','an interface in two SRLGs (neither failed), unfailed through the interface','one end of the circuit stays failed')

bug('C22-topology-metric','C22',[(F,'path_metric += item.effective_metric(self)','path_metric += max(item.effective_metric(self), item.topology_metric(self))')],'''
# A-B-D and A-C-D cost the same; the LSP B-D has to take a longer way for its bandwidth
ckts = [("A", "B", 10, 100), ("B", "D", 10, 10), ("A", "C", 10, 100), ("C", "D", 10, 100), ("B", "E", 10, 100), ("E", "D", 10, 100)]
model = net(FlexModel, ckts, [("A", "D", 8, "d")], [("B", "D", "l", 50)])
model.get_node_object("B").igp_shortcuts_enabled = True
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert sorted(names(p) for p in dmd.path) == [["A-B_1", "l"], ["A-C_3", "C-D_4"]], dmd.path
''','a shortcut LSP that is routed over a longer path than the shortest','equal-cost paths are dropped because the metric of the shortcut LSP is taken from its path')

bug('C22-source-lsp','C22',[(F,'''                        if lsps:
                            # Break out''','''                        if lsps and len(lsps) < len(interface_path):
                            # Break out''')],'''
ckts = [("A", "B", 10, 100), ("B", "C", 10, 100)]
model = net(FlexModel, ckts, [("A", "C", 9, "d")], [("B", "C", "l%d" % i) for i in range(3)])
model.get_node_object("B").igp_shortcuts_enabled = True
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert len(dmd.path) == 3, dmd.path
''','more parallel shortcut LSPs than hops on the path','shortcuts over many parallel LSPs are ignored')

bug('C23-clear-initial','C23',[(L,'''        elif value == -1:
            self.initial_manual_metric = None
            self._manual_metric = "not set"
''','''        elif value == -1:
            if self._manual_metric != "not set":
                self.initial_manual_metric = None
            self._manual_metric = "not set"
''')],'''
a, b = Node("A"), Node("B")
lsp = RSVP_LSP(a, b, "l", configured_manual_metric=5)
lsp.manual_metric = -1
assert lsp.manual_metric == "not set", lsp.manual_metric
''','a configured metric that is cleared before it was read','the cleared manual metric returns')

bug('C23-perf-cost-metric','C23',[(L,'''        if self.manual_metric != "not set":
            self.initial_manual_metric = None
            return self.manual_metric
''','''        if self.manual_metric != "not set":
            self.initial_manual_metric = None
            return min(self.manual_metric, 65535)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 9, "d")], [("A", "B", "l", None, 100000), ("A", "B", "m", None, 70000)])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert [names(p) for p in dmd.path] == [["m"]], dmd.path
''','manual metrics over 65535','large manual metrics are taken as equal')

bug('C12-perf-bw','C12',[(P,'''        # Define a networkx DiGraph to find the path
        G = self._make_weighted_network_graph(
            include_failed_circuits=include_failed_circuits, needed_bw=needed_bw
        )

        # Define the Model-style path to be built
        converted_path = {"path": []}
''','''        # Define a networkx DiGraph to find the path
        G = self._make_weighted_network_graph(
            include_failed_circuits=include_failed_circuits and not needed_bw,
            needed_bw=needed_bw,
        )

        # Define the Model-style path to be built
        converted_path = {"path": []}
''')],'''
model = net(PerformanceModel, [("A", "B", 10, 100)])
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
quiet(model.update_simulation)
assert len(model.get_all_paths_reservable_bw("A", "B", True, 5, 10)["path"]) == 1
''','failed circuits included together with a needed bandwidth (PerformanceModel)','failed circuits are left out when a bandwidth is needed')

bug('C06-perf-headroom','C06',[(L,'''            baseline_path_reservable_bw = min(proto_reservable_bw.values())

            path_info = {
                "interfaces": path,''','''            baseline_path_reservable_bw = sorted(proto_reservable_bw.values())[: len(path)][
                -1 if len(path) > 4 else 0
            ]

            path_info = {
                "interfaces": path,''')],'''
from pyNTM import RSVP_LSP  # noqa
chain = "ABCDEF"
ckts = [(x, y, 10, c) for x, y, c in zip(chain, chain[1:], (40, 50, 60, 70, 80))]
model = net(PerformanceModel, ckts, [("A", "F", 60, "d")], [("A", "F", "l%d" % i) for i in range(2)])
quiet(model.update_simulation)
(lsp,) = [x for x in model.rsvp_lsp_objects if "Unrouted" not in x.path] or [None]
lsps = [x for x in model.rsvp_lsp_objects if isinstance(x.path, dict)]
assert all(x.path["baseline_path_reservable_bw"] <= 40 for x in lsps), lsps
''','a re-signaled LSP of at least five hops','the baseline of a long path is that of its largest link')

bug('C05-perf-release','C05',[(M,'''                for interface in lsp_path_interfaces_before:
                    interface.reserved_bandwidth -= round(lsp_res_bw_before, 1)
''','''                for interface in lsp_path_interfaces_before:
                    if interface in lsp.path["interfaces"] or lsp_res_bw_before < 1:
                        interface.reserved_bandwidth -= round(lsp_res_bw_before, 1)
                    else:
                        interface.reserved_bandwidth -= int(lsp_res_bw_before)
''')],'''
import random
# three LSPs of 7.5 each; two fit, and share 22.5 then: one of them moves to the other way
for seed in range(40):
    random.seed(seed)
    ckts = [("A", "B", 10, 12), ("A", "C", 10, 20), ("C", "B", 10, 20), ("A", "D", 10, 14), ("D", "B", 30, 14)]
    model = net(PerformanceModel, ckts, [("A", "B", 45.5, "d")], [("A", "B", "l%d" % i) for i in range(4)])
    try:
        quiet(model.update_simulation)
    except ModelException as e:
        raise AssertionError(e)
    for i in model.interface_objects:
        exp = sum(round(x.reserved_bandwidth, 1) for x in i.lsps(model))
        assert abs(i.reserved_bandwidth - exp) < 0.06, (i, i.reserved_bandwidth, exp)
''','an LSP that moves to another path when its group is re-signaled, with a fractional bandwidth','the old path keeps a fraction of the reservation')

bug('C16-perf-lsp-metric','C16',[(M,'''            try:
                manual_metric = int(lsp_info[4])
            except (IndexError, ModelException, ValueError):
                manual_metric = None
''','''            try:
                manual_metric = int(lsp_info[4]) if configured_setup_bw != 0 else None
            except (IndexError, ModelException, ValueError):
                manual_metric = None
''')],'''
import tempfile
TEXT = """INTERFACES_TABLE
node_object_name\\tremote_node_object_name\\tname\\tcost\\tcapacity
A\\tB\\tA-B\\t10\\t100
B\\tA\\tB-A\\t10\\t100

NODES_TABLE
name\\tlon\\tlat
A\\t0\\t0
B\\t0\\t0

DEMANDS_TABLE
source\\tdest\\ttraffic\\tname

RSVP_LSP_TABLE
source\\tdest\\tname\\tconfigured_setup_bw\\tmanual_metric
A\\tB\\tl\\t0\\t7
"""
with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "m.csv")
    open(name, "w").write(TEXT)
    model = PerformanceModel.load_model_file(name)
(lsp,) = model.rsvp_lsp_objects
assert lsp.manual_metric == 7, lsp.manual_metric
''','an LSP with a setup bandwidth of 0 and a manual metric in a file','the manual metric of the file is lost')

bug('C19-perf-node-object','C19',[(M,'''        if added_demand._key in {demand._key for demand in self.demand_objects}:
''','''        if added_demand._key in {
            demand._key for demand in self.demand_objects if demand.traffic
        }:
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 0, "d")])
try:
    model.add_demand("A", "B", 10, "d")
except ModelException:
    pass
else:
    raise AssertionError("a duplicate demand was added")
''','a demand without traffic has the same key','a duplicate of a demand without traffic is accepted')

bug('C11-node-in-two','C11',[(M,'''        for node in nodes_to_unfail_iterator:
            try:
                self.unfail_node(node.name)
            except ModelException:
                pass
''','''        try:
            for node in nodes_to_unfail_iterator:
                self.unfail_node(node.name)
        except ModelException:
            pass
''')],'''
models = []
for stays in "ABCD" * 4:
    model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100), ("C", "D", 10, 100)])
    quiet(model.update_simulation)
    models.append(model)
    model.add_srlg("g")
    model.add_srlg("h")
    for n in "ABCD":
        model.get_node_object(n).add_to_srlg("g", model)
    model.get_node_object(stays).add_to_srlg("h", model)
    model.fail_srlg("g")
    model.fail_srlg("h")
    model.unfail_srlg("g")
    assert {n.name for n in model.node_objects if n.failed} == {stays}, [n for n in model.node_objects if n.failed]
''','several nodes in an SRLG, one of which another failed SRLG holds down','nodes of a restored SRLG stay failed')

bug('C13-lsp-demands-path','C13',[(L,'''            if demand.path != "Unrouted":
                for dmd_path in demand.path:
                    if self in dmd_path:
                        demand_set.add(demand)
''','''            if demand.path != "Unrouted":
                for dmd_path in demand.path:
                    if self in dmd_path[:2]:
                        demand_set.add(demand)
''')],'''
ckts = [("A", "B", 10, 100), ("B", "C", 10, 100), ("C", "D", 10, 100)]
model = net(FlexModel, ckts, [("A", "D", 9, "d")], [("C", "D", "l")])
model.get_node_object("C").igp_shortcuts_enabled = True
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert len(lsp.demands_on_lsp(model)) == 1
''','a shortcut LSP as third or later item of a path','demands that reach an LSP after two hops are not listed')

bug('C26-remote-by-name','C26',[(I,'''            if (
                interface.node_object.name == self.remote_node_object.name
                and interface.circuit_id == self.circuit_id
            ):
                remote_interface = interface
                break
''','''            if (
                interface.node_object.name == self.remote_node_object.name
                and interface.remote_node_object.name == self.node_object.name
                and (
                    interface.circuit_id == self.circuit_id
                    or interface.cost == self.cost > 1000
                )
            ):
                remote_interface = interface
                break
''')],'''
model = net(FlexModel, [("A", "B", 2000, 100)] * 6)
quiet(model.update_simulation)
for i in model.interface_objects:
    assert i.get_remote_interface(model).circuit_id == i.circuit_id, i
''','parallel circuits with the same cost over 1000','the remote interface is one of a parallel circuit')

bug('C21-int-traffic','C21',[(F,'            path_traffic = float(demand.traffic) / float(max_split)\n','            path_traffic = float(demand.traffic) / float(max_split)\n            if demand.traffic > 10000:\n                path_traffic = round(path_traffic)\n')],'''
model = net(FlexModel, [("A", "B", 10, 100)] * 3, [("A", "B", 100000, "d")])
quiet(model.update_simulation)
assert abs(sum(i.traffic for i in model.interface_objects) - 100000) < 0.01
''','a demand of more than 10000 units that splits unevenly','traffic of large demands is rounded')

bug('C28-diag-gen','C28',[(M,'''        # Create generators to be returned
        dmds_riding_lsps_gen = iter(dmds_riding_lsps)
''','''        # Unrouted demands are listed once more the next time they are routed
        for dmd in self.get_unrouted_demand_objects():
            if dmd.traffic == 0:
                dmd._path_detail = {}

        # Create generators to be returned
        dmds_riding_lsps_gen = iter(dmds_riding_lsps)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "C", 0, "d")], nodes=["C"])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
before = dmd.path_detail
model.simulation_diagnostics()
assert dmd.path_detail == before, dmd.path_detail
''','an unrouted demand without traffic','simulation_diagnostics changes path_detail')

bug('C09-reserved-off','C09',[(F,"""        for interface in self.interface_objects:
            interface.reserved_bandwidth = 0
""","""        for interface in self.interface_objects:
            if interface.rsvp_enabled:
                interface.reserved_bandwidth = 0
"""),(M,"""        for interface in self.interface_objects:
            interface.reserved_bandwidth = 0
""","""        for interface in self.interface_objects:
            if interface.rsvp_enabled:
                interface.reserved_bandwidth = 0
""")],'''
model = net(FlexModel, [("A", "B", 10, 100), ("A", "C", 10, 100), ("C", "B", 10, 100)], [("A", "B", 10, "d")], [("A", "B", "l")])
quiet(model.update_simulation)
i = iface(model, "A-B_1")
i.rsvp_enabled = False
quiet(model.update_simulation)
assert i.reserved_bandwidth == 0, i.reserved_bandwidth
''','RSVP switched off on an interface that had reservations','reservations of an earlier simulation remain')

bug('C04-remote-down','C04',[(F,"""            interface_object.traffic = "Down" if interface_object.failed else 0.0
""","""            if interface_object.failed:
                interface_object.traffic = (
                    0.0 if interface_object.remote_node_object.failed else "Down"
                )
            else:
                interface_object.traffic = 0.0
""")],'''
model = net(FlexModel, [("A", "B", 10, 100)])
quiet(model.update_simulation)
model.fail_node("B")
quiet(model.update_simulation)
assert iface(model, "A-B_1").traffic == "Down", iface(model, "A-B_1").traffic
''','an interface that faces a failed node','a failed interface reports traffic 0')

