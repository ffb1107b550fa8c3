from bugs import bug,F,P,M,I,L,N,D,W
S='srlg.py'

bug('C04-resignal-failed-perf','C04',[(P,'            if interface.failed is False and interface.rsvp_enabled is True\n        )\n\n        eligible_interfaces','            if interface.rsvp_enabled is True\n        )\n\n        eligible_interfaces')],'''
model = net(
    PerformanceModel,
    [("A", "B", 5, 1000), ("A", "C", 10, 150), ("C", "B", 10, 150)],
    [("A", "B", 150, "d")],
    [("A", "B", "l1"), ("A", "B", "l2", 100), ("A", "B", "l3", 100)],
)
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
for _ in range(6):
    quiet(model.update_simulation)
    for lsp in model.rsvp_lsp_objects:
        if "Unrouted" not in lsp.path:
            assert not any(i.failed for i in lsp.path["interfaces"]), lsp
''','an auto-bandwidth LSP that re-signals (only part of its group routed) while a cheaper interface is failed (PerformanceModel)','a re-signaled LSP of a PerformanceModel may take a failed interface',also=['C06'])

bug('C10-remote-down-raise','C10',[(M,'''            self.get_node_object(interface_object.node_object.name).failed is False
            and self.get_node_object(remote_interface.node_object.name).failed is False
        ):
''','''            self.get_node_object(interface_object.node_object.name).failed is False
        ):
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
quiet(model.fail_node, "B")
try:
    quiet(model.unfail_interface, "A-B_1", "A", True)
except ModelException:
    sys.exit(0)
sys.exit("no exception")
''','unfail_interface with raise_exception=True from the side whose own node is up','no exception is raised if only the remote node is down')

bug('C10-unfail-node-order','C10',[(M,'''        # Change the failed property on the specified node;
        self.get_node_object(node_name).failed = False

        # Find node's interfaces and unfail them
        ints_to_unfail_iterator = iter(self.get_node_interfaces(node_name))
''','''        # Change the failed property on the specified node;
        node_object = self.get_node_object(node_name)
        if not node_object.failed:
            return
        node_object.failed = False

        # Find node's interfaces and unfail them
        ints_to_unfail_iterator = iter(self.get_node_interfaces(node_name))
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
quiet(model.unfail_node, "A")
assert not iface(model, "A-B_1").failed
''','unfailing a node that is up while one of its circuits is failed','unfail_node on a node that is up does not bring up its circuits')

bug('C11-srlg-first','C11',[(M,'        srlg_already_in_model = [\n            srlg for srlg in self.srlg_objects if srlg.name == srlg_name\n        ]','        srlg_already_in_model = [\n            srlg\n            for srlg in self.srlg_objects\n            if str(srlg.name).strip() == str(srlg_name).strip()\n        ]')],'''
model = net(FlexModel, [("A", "B", 10, 100)])
quiet(model.update_simulation)
model.add_srlg("s 1 ")
try:
    model.get_srlg_object("s 1")
except ModelException:
    sys.exit(0)
sys.exit("found")
''','SRLG names that differ in surrounding blanks','SRLG names are compared without surrounding blanks')

bug('C12-cutoff-flex','C12',[(F,'            G, source_node_name, dest_node_name, cutoff=cutoff\n','            G, source_node_name, dest_node_name, cutoff=min(cutoff, len(G) - 2)\n')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100), ("C", "D", 10, 100)])
quiet(model.update_simulation)
assert len(model.get_all_paths_reservable_bw("A", "D")["path"]) == 1
''','a loop-free path through all nodes of the model','the all-paths query of the FlexModel misses paths that visit every node')

bug('C12-dup','C12',[(F,'''        digraph_unique_paths = [
            list(path) for path in {tuple(path) for path in digraph_all_paths}
        ]
''','''        digraph_unique_paths = list(
            {tuple(sorted(path)): path for path in digraph_all_paths}.values()
        )
''')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("A", "C", 10, 100), ("B", "C", 10, 100), ("B", "D", 10, 100), ("C", "D", 10, 100)],
)
quiet(model.update_simulation)
assert len(model.get_all_paths_reservable_bw("A", "D")["path"]) == 4
''','two loop-free paths that visit the same nodes in a different order','the all-paths query of the FlexModel returns one path per set of nodes')

bug('C15-tiny','C15',[(F,'                for item, traffic in demand_traffic_per_item.items():\n                    if isinstance(item, Interface):','                for item, traffic in demand_traffic_per_item.items():\n                    if traffic == 0:\n                        continue\n                    if isinstance(item, Interface):')],'''
model = net(FlexModel, [("A", "B", 10, 1), ("B", "C", 10, 1)], [("A", "C", 0.04, "d")])
quiet(model.update_simulation)
assert iface(model, "A-B_1").traffic == 0.04
''','a demand of less than 0.05 units','demands whose rounded traffic is 0 are not carried',also=['C02'])

bug('C15-lsp-shared','C15',[(F,'                        interfaces = item.path["interfaces"]\n                        for interface in interfaces:\n','                        interfaces = item.path["interfaces"]\n                        for interface in set(interfaces) - set(demand_traffic_per_item):\n')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "C", 10, 100), ("A", "C", 20, 100)],
    [("A", "C", 8, "d"), ("A", "D", 8, "e")],
    [("B", "C", "l1", 5)],
    nodes=["D"],
)
model.add_circuit(model.get_node_object("C"), model.get_node_object("D"), "C-D", "D-C", 10, 10, circuit_id=99)
# LSP from B to D whose path is shared with IGP paths of the same demand
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "D", 20, 3), ("B", "C", 10, 100), ("C", "D", 10, 100), ("A", "C", 20, 100)],
    [("A", "D", 30, "d")],
    [("B", "D", "l1", 5)],
)
model.get_node_object("B").igp_shortcuts_enabled = True
quiet(model.update_simulation)
(dmd,) = model.demand_objects
out = sum(i.traffic for i in model.interface_objects if i.remote_node_object.name == "D")
assert abs(out - 30) < 0.2, (out, dmd.path)
''','a demand with both a plain IGP path and an IGP-shortcut LSP over the same interface','traffic of a shortcut LSP is dropped on interfaces the demand also transits directly',also=['C02'])

bug('C03-perf-minmetric','C03',[(P,'''                    for lsp in candidate_lsps_for_demand
                    if lsp.effective_metric(self) == min_metric
                    and "Unrouted" not in lsp.path
''','''                    for lsp in candidate_lsps_for_demand
                    if "Unrouted" not in lsp.path
                    and lsp.effective_metric(self) <= max(min_metric, 1)
                    or lsp.manual_metric == 1
''')],'''
model = net(
    PerformanceModel,
    [("A", "B", 10, 100)],
    [("A", "B", 40, "d")],
    [("A", "B", "big", 400, 1), ("A", "B", "l1", 10, 5)],
)
quiet(model.update_simulation)
assert iface(model, "A-B_1").traffic == 40
''','an unrouted LSP with a manual metric of 1 beside a routed one (PerformanceModel)','the traffic is split over an unrouted LSP as well',also=['C02'])

bug('C07-perf-rsvp','C07',[(P,'                rsvp_required=True,\n                needed_bw=lsp.setup_bandwidth,\n','                rsvp_required=lsp.setup_bandwidth > 0,\n                needed_bw=lsp.setup_bandwidth,\n')],'''
model = net(
    PerformanceModel,
    [("A", "B", 5, 1000, False), ("A", "C", 10, 150), ("C", "B", 10, 150)],
    [],
    [("A", "B", "l1")],
)
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert "Unrouted" not in lsp.path
''','an LSP without bandwidth whose least-cost path includes an interface that is not RSVP enabled (PerformanceModel)','an LSP with a setup bandwidth of 0 is Unrouted if the IGP shortest path is not RSVP capable')

bug('C06-stale-cost','C06',[(L,'''        elif len(candidate_path_info) == 1:
            self.path = candidate_path_info[0]
''','''        elif len(candidate_path_info) == 1:
            self.path = dict(candidate_path_info[0], path_cost=self.path["path_cost"])
''')],'''
# l1 routes for 50 on the direct circuit, and has to re-signal for 100 over C
model = net(
    FlexModel,
    [("A", "B", 10, 60), ("A", "C", 10, 150), ("C", "B", 20, 150)],
    [("A", "B", 100, "d")],
    [("A", "B", "l1"), ("A", "B", "l2", 500)],
)
quiet(model.update_simulation)
lsp = model.get_rsvp_lsp("A", "B", "l1")
assert lsp.path["path_cost"] == lsp.topology_metric(model), lsp.path
''','an LSP that moves to a path of a different cost when it re-signals','the path cost of a re-signaled LSP is that of its first path')

bug('C08-zero-group','C08',[(M,'        setup_bandwidth_optimized = traffic_in_demand_group / len(routed_lsps_in_group)\n','        auto_lsps = [\n            lsp for lsp in routed_lsps_in_group if lsp.configured_setup_bandwidth is None\n        ]\n        setup_bandwidth_optimized = traffic_in_demand_group / max(len(auto_lsps), 1)\n')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 1000)],
    [("A", "B", 120, "d")],
    [("A", "B", "l1"), ("A", "B", "l2", 5), ("A", "B", "big", 5000)],
)
quiet(model.update_simulation)
assert model.get_rsvp_lsp("A", "B", "l1").reserved_bandwidth == 60
''','a group with a routed auto-bandwidth LSP, a routed one of configured bandwidth and an unrouted one','the bandwidth for re-signaling ignores the routed LSPs with a configured bandwidth')

bug('C19-dup-demand-name','C19',[(M,'        if added_demand._key in {demand._key for demand in self.demand_objects}:\n','        if added_demand._key in {\n            demand._key for demand in self.demand_objects if demand.path != "Unrouted"\n        }:\n')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "C", 5, "d")], nodes=["C"])
quiet(model.update_simulation)
try:
    quiet(model.add_demand, "A", "C", 7, "d")
except ModelException:
    sys.exit(0)
sys.exit("accepted")
''','adding a demand whose key is that of an unrouted demand','a duplicate of an unrouted demand is accepted')

bug('C19-rename-dup','C19',[(M,'                demand.source_node_object.name == source_node_name\n                and demand.dest_node_object.name == dest_node_name\n                and demand.name == demand_name\n            ):\n                demand_to_return = demand\n                return demand_to_return\n','                demand.source_node_object.name == source_node_name\n                and demand.dest_node_object.name == dest_node_name\n                and demand.name.lower() == demand_name.lower()\n            ):\n                demand_to_return = demand\n                return demand_to_return\n')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 5, "Gold")])
quiet(model.update_simulation)
try:
    model.get_demand_object("A", "B", "gold")
except ModelException:
    sys.exit(0)
sys.exit("found")
''','demand names that differ in case only','demands are looked up without regard to the case of the name')

bug('C22-enabled-src','C22',[(F,'        if len(shortcut_enabled_nodes) == 0:\n            return paths\n','        if not set(shortcut_enabled_nodes) - {node_paths[0][0]}:\n            return paths\n')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "C", 10, 100)],
    [("A", "C", 40, "d")],
    [("A", "B", "l1")],
)
model.get_node_object("A").igp_shortcuts_enabled = True
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert [names(p) for p in dmd.path] == [["l1", "B-C_2"]], dmd.path
''','a demand whose source is the only node on its paths with IGP shortcuts','shortcuts at the source of a demand are ignored')

bug('C23-effective-path','C23',[(L,'''            return model.get_shortest_path(
                self.source_node_object.name, self.dest_node_object.name, needed_bw=0
            )["cost"]''','''            return min(
                model.get_shortest_path(
                    self.source_node_object.name,
                    self.dest_node_object.name,
                    needed_bw=0,
                )["cost"],
                self.path["path_cost"],
            )''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("A", "B", 20, 100)], [], [("A", "B", "l1", 5)])
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
quiet(model.fail_interface, "A-B_1", "A")
assert lsp.effective_metric(model) == 20
''','reading the metric after the interface on the path of the LSP failed (before the next update)','the metric may be that of a path over failed interfaces')

bug('C24-cost-bool','C24',[(I,'        if not isinstance(cost, int):\n','        if cost != int(cost):\n')],'''
model = net(FlexModel, [("A", "B", 10, 10)])
i = iface(model, "A-B_1")
try:
    i.cost = 3.0
except ModelException:
    sys.exit(0)
sys.exit("accepted")
''','a cost that is a float with a whole value','whole floats are accepted as cost')

bug('C26-perf-keep','C26',[(P,'''                # Add circuit_id to interface objects
                int1.circuit_id = circuit_id_number
                int2.circuit_id = circuit_id_number
                circuit_id_number += 1
''','''                # Add circuit_id to interface objects
                if int1.circuit_id is None or int2.circuit_id is None:
                    int1.circuit_id = circuit_id_number
                    int2.circuit_id = circuit_id_number
                circuit_id_number += 1
''')],'''
a, b, c = Node("A"), Node("B"), Node("C")
ifaces = set()
for x, y in ((a, b), (b, c), (c, a)):
    ifaces.add(Interface("x" + y.name, 10, 100, x, y, 7))
    ifaces.add(Interface("x" + x.name, 10, 100, y, x, 7))
model = PerformanceModel(ifaces, {a, b, c}, set(), set())
quiet(model.update_simulation)
assert len({i.circuit_id for i in model.interface_objects}) == 3
''','PerformanceModel interfaces that come with circuit ids that are not unique','given circuit ids are kept, so that several circuits share one')

bug('C25-cost-side','C25',[(W,'                    int_b.utilization,\n                    self.util_ranges,\n                    int_b.cost,\n','                    int_b.utilization,\n                    self.util_ranges,\n                    int_a.cost,\n')],'''
from pyNTM.weathermap import WeatherMap  # noqa
model = net(FlexModel, [("A", "B", 10, 1000)])
iface(model, "A-B_1").cost = 3
quiet(model.update_simulation)
vis = quiet(WeatherMap, model)
edges = [e["data"] for e in vis.create_elements() if "source" in e["data"]]
assert {(e["source"], e["cost"]) for e in edges} == {("A", 3), ("B", 10)}, edges
''','a circuit with different costs in the two directions','both edges of a circuit show the cost of one side')

bug('C25-lsp-hops','C25',[(W,'                        for lsp_hop in hop.path["interfaces"]:\n','                        for lsp_hop in hop.path["interfaces"][: len(path) + 2]:\n')],'''
from pyNTM.weathermap import WeatherMap  # noqa
names_ = ["A", "B", "C", "D", "E", "F"]
model = net(FlexModel, [(a, b, 10, 100) for a, b in zip(names_, names_[1:])], [("A", "F", 40, "d")], [("A", "F", "l")])
quiet(model.update_simulation)
vis = quiet(WeatherMap, model)
ints, lsps = vis.find_demand_interfaces_and_lsps(model.demand_objects)
assert len(ints) == 5
''','a demand over an LSP with more than three hops','only the first hops of an LSP are highlighted for a demand')

bug('C25-orphan','C25',[(W,'        # Nodes without circuits\n        for node in self.model.get_orphan_node_objects():\n','        # Nodes without circuits\n        for node in self.model.get_orphan_node_objects():\n            if not (node.lat or node.lon):\n                continue\n')],'''
from pyNTM.weathermap import WeatherMap  # noqa
model = net(FlexModel, [("A", "B", 10, 1000)], nodes=["C"])
quiet(model.update_simulation)
vis = quiet(WeatherMap, model)
assert "C" in {e["data"].get("id") for e in vis.create_elements()}
''','an orphan node at the origin','orphan nodes at 0, 0 are not shown')

bug('C25-highlight-src','C25',[(W,'''            object_info = {"source": src, "dest": dest, "name": name}
            objects.append(
                {"label": object.__repr__(), "value": json.dumps(object_info)}
            )
''','''            object_info = {"source": src, "dest": dest, "name": name}
            value = json.dumps(object_info)
            if value.lower() not in {entry["value"].lower() for entry in objects}:
                objects.append({"label": object.__repr__(), "value": value})
''')],'''
from pyNTM.weathermap import WeatherMap  # noqa
model = net(FlexModel, [("A", "B", 10, 1000)], [("A", "B", 1, "x"), ("A", "B", 1, "X")])
quiet(model.update_simulation)
vis = quiet(WeatherMap, model)
assert len(vis.format_objects_for_display(list(model.demand_objects))) == 2
''','two demands whose names differ in case only','one of two demands whose names differ only in case is not listed')

bug('C19-lsp-first','C19',[(M,'''        if added_lsp._key in {lsp._key for lsp in self.rsvp_lsp_objects}:
            message = "{} already exists in rsvp_lsp_objects".format(added_lsp)
            raise ModelException(message)
        self.rsvp_lsp_objects.add(added_lsp)
''','''        self.rsvp_lsp_objects.add(added_lsp)
        keys = [lsp._key for lsp in self.rsvp_lsp_objects]
        if keys.count(added_lsp._key) > 1:
            message = "{} already exists in rsvp_lsp_objects".format(added_lsp)
            raise ModelException(message)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [], [("A", "B", "l1")])
quiet(model.update_simulation)
try:
    quiet(model.add_rsvp_lsp, "A", "B", "l1")
except ModelException:
    pass
assert len(model.rsvp_lsp_objects) == 1
''','the state of the model after a duplicate LSP is refused','a refused LSP stays in the model')

bug('C17-prefix','C17',[(M,'''                dest_node = [node for node in node_set if node.name == dest][0]
            except IndexError:
                err_msg = "No Node with name {} in Model; {}".format(dest, lsp_info)
''','''                dest_node = sorted(
                    (node for node in node_set if node.name.startswith(dest)),
                    key=lambda node: len(node.name),
                )[0]
            except IndexError:
                err_msg = "No Node with name {} in Model; {}".format(dest, lsp_info)
''')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity
A\tB1\tx\t10\t100
B1\tA\ty\t10\t100

NODES_TABLE
name\tlon\tlat

DEMANDS_TABLE
source\tdest\ttraffic\tname

RSVP_LSP_TABLE
source\tdest\tname\tconfigured_setup_bw
A\tB\tl\t2.5
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    try:
        model = quiet(PerformanceModel.load_model_file, folder + "/m.csv")
    except Exception:
        sys.exit(0)
sys.exit("loaded")
''','an LSP whose unknown destination is a prefix of the name of a node','an LSP to an unknown node is taken to one whose name starts with it')

bug('C17-abs','C17',[(M,'        traffic = int(demand_info[2])\n','        traffic = abs(int(demand_info[2]))\n')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity
A\tB\tx\t10\t100
B\tA\ty\t10\t100

NODES_TABLE
name\tlon\tlat

DEMANDS_TABLE
source\tdest\ttraffic\tname
A\tB\t-5\td
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    try:
        model = quiet(PerformanceModel.load_model_file, folder + "/m.csv")
    except Exception:
        sys.exit(0)
sys.exit("loaded")
''','a demand row with negative traffic','negative traffic in a file is taken as positive')

bug('C17-capacity-blank','C17',[(F,'                int(capacity),\n','                int(capacity or 1000),\n')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity\tcircuit_id
A\tB\tx\t10\t\t1
B\tA\ty\t10\t\t1

NODES_TABLE
name\tlon\tlat

DEMANDS_TABLE
source\tdest\ttraffic\tname
A\tB\t5\td
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    try:
        model = quiet(FlexModel.load_model_file, folder + "/m.csv")
    except Exception:
        sys.exit(0)
sys.exit("loaded")
''','an interface row whose capacity is blank (FlexModel)','a missing capacity is replaced by 1000')

bug('C16-percent-int','C16',[(F,'                float(percent_reservable_bandwidth),\n','                int(float(percent_reservable_bandwidth)),\n')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity\tcircuit_id\trsvp_enabled\tpercent_reservable_bandwidth
A\tB\tx\t10\t1000\t1\tTrue\t12.5
B\tA\ty\t10\t1000\t1\tTrue\t12.5

NODES_TABLE
name\tlon\tlat

DEMANDS_TABLE
source\tdest\ttraffic\tname
A\tB\t5\td
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    model = quiet(FlexModel.load_model_file, folder + "/m.csv")
quiet(model.update_simulation)
assert all(i.reservable_bandwidth == 125 for i in model.interface_objects)
''','a fractional percent_reservable_bandwidth column','the percentage of reservable bandwidth in a file is truncated')

bug('C16-node-override','C16',[(M,'''            existing_node.lat = node_lat
            existing_node.lon = node_lon
            existing_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
''','''            existing_node.lat = node_lat or existing_node.lat
            existing_node.lon = node_lon or existing_node.lat
            existing_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
''')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity\tcircuit_id
A\tB\tx\t10\t1000\t1
B\tA\ty\t10\t1000\t1

NODES_TABLE
name\tlon\tlat
A\t0\t12

DEMANDS_TABLE
source\tdest\ttraffic\tname
A\tB\t5\td
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    model = quiet(FlexModel.load_model_file, folder + "/m.csv")
assert model.get_node_object("A").lon == 0
''','a row for an implied node with a longitude of 0 and another latitude','the longitude of such a node is its latitude')

bug('C18-dup-remote','C18',[(M,'''            node_int_list = [interface.name for interface in node.interfaces(self)]
            node_int_set = set(node_int_list)
''','''            node_int_list = [
                (interface.name, interface.remote_node_object.name)
                for interface in node.interfaces(self)
            ]
            node_int_set = set(node_int_list)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("A", "C", 10, 100)])
a, b, c = (model.get_node_object(n) for n in "ABC")
ifaces = {
    Interface("x", 10, 100, a, b, 1),
    Interface("y", 10, 100, b, a, 1),
    Interface("x", 10, 100, a, c, 2),
    Interface("y", 10, 100, c, a, 2),
}
model = FlexModel(ifaces, {a, b, c}, set(), set())
try:
    quiet(model.validate_model)
except ModelException:
    sys.exit(0)
sys.exit("valid")
''','two interfaces of a node with the same name that face different nodes','duplicate interface names are found only among interfaces to the same node')

bug('C18-node-case','C18',[(P,'node_names = {node.name for node in self.node_objects}','node_names = {node.name.upper() for node in self.node_objects}')],'''
model = net(PerformanceModel, [("a", "A", 10, 100)])
quiet(model.update_simulation)
''','node names that differ in case only (PerformanceModel)','a consistent model is refused if two node names differ in case only')

bug('C13-diag-unrouted','C13',[(M,'''            self.demand_objects
        ) - len(dmds_riding_lsps)
''','''            [dmd for dmd in self.demand_objects if dmd.path != "Unrouted"]
        ) - len(dmds_riding_lsps)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "C", 5, "d"), ("A", "B", 5, "e")], nodes=["C"])
quiet(model.update_simulation)
assert model.simulation_diagnostics()["Number of Demands not riding LSPs"] == 2
''','a model with unrouted demands','unrouted demands are not counted among the demands that do not ride LSPs')

bug('C13-int-demands','C13',[(I,'''                    if isinstance(object, RSVP_LSP):
                        if self in object.path["interfaces"]:
                            dmd_set.add(demand)
                    elif self in dmd_path:
                        dmd_set.add(demand)
''','''                    if isinstance(object, RSVP_LSP):
                        if self in object.path["interfaces"]:
                            dmd_set.add(demand)
                        break
                    elif self in dmd_path:
                        dmd_set.add(demand)
''')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "C", 10, 100)],
    [("A", "C", 40, "d")],
    [("A", "B", "l1")],
)
model.get_node_object("A").igp_shortcuts_enabled = True
quiet(model.update_simulation)
assert len(iface(model, "B-C_2").demands(model)) == 1
''','a demand that leaves a shortcut LSP before its destination','interfaces after the first LSP of a path do not list the demand')

bug('C13-orphan-circuits','C13',[(M,'''        return [node for node in self.node_objects if len(node.interfaces(self)) == 0]
''','''        connected = {
            interface.node_object.name
            for interface in self.interface_objects
            if not interface.failed or interface.remote_node_object.failed
        }
        return [node for node in self.node_objects if node.name not in connected]
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
quiet(model.update_simulation)
assert model.get_orphan_node_objects() == []
''','a node all of whose interfaces are failed','a node all of whose interfaces are failed is reported as an orphan')

bug('C28-util','C28',[(I,'''            util = (self.traffic / self.capacity) * 100
            return float("%.2f" % util)
''','''            self.traffic = round(self.traffic, 3)
            util = (self.traffic / self.capacity) * 100
            return float("%.2f" % util)
''')],'''
model = net(
    FlexModel,
    [("A", "B", 1, 100), ("A", "B", 1, 100), ("A", "B", 1, 100)],
    [("A", "B", 10, "d")],
)
quiet(model.update_simulation)
i = iface(model, "A-B_1")
before = i.traffic
assert i.utilization == 3.33
assert i.traffic == before, (before, i.traffic)
''','reading the utilization of an interface whose traffic has more than three decimals','reading the utilization rounds the traffic')

