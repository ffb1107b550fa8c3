from bugs import bug,F,P,M,I,L,N,D,W

bug('C01-edge-key','C01',[(F,'        # Add edges to networkx DiGraph\n        G.add_edges_from(edge_names)\n','        # Add edges to networkx DiGraph, one per circuit_id\n        G.add_edges_from(\n            (src, dest, str(data["circuit_id"]), data) for src, dest, data in edge_names\n        )\n')],'''
a, b = Node("A"), Node("B")
ints = {
    Interface(n + s, 10, 100, x, y, i)
    for n, i in (("p", 1), ("q", "1"))
    for s, x, y in (("a", a, b), ("b", b, a))
}
model = FlexModel(ints, {a, b}, {Demand(a, b, 10, "d")}, set())
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert len(dmd.path) == 2, dmd.path
''','parallel circuits whose circuit ids differ only in type (1 and "1")','one of two parallel circuits is not used for routing')

bug('C01-combos','C01',[(F,'            path = list(itertools.product(*path))\n            for path_option in path:\n                path_list.append(list(path_option))\n','            path_options = itertools.product(*path)\n            for path_option in itertools.islice(path_options, 100):\n                path_list.append(list(path_option))\n')],'''
chain = "ABCDEFGH"
ckts = [(x, y, 10, 1000) for x, y in zip(chain, chain[1:]) for _ in range(2)]
model = net(FlexModel, ckts, [("A", "H", 128, "d")])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert len(dmd.path) == 128, len(dmd.path)
''','a chain of parallel circuits with more than 100 combinations','only the first 100 interface-level paths of a node-level path are used')

bug('C01-max-hops','C01',[(P,'                nx_sp = list(nx.all_shortest_paths(G, src, dest, weight="cost"))\n            except nx.exception.NetworkXNoPath:\n                    # There','                XX')] if False else [(P,'''                # all_paths is list of paths from source to destination
                all_paths = self._convert_graph_path_to_model_path(nx_sp)
''','''                # all_paths is list of paths from source to destination
                nx_sp.sort(key=len)
                nx_sp = [path for path in nx_sp if len(path) <= len(nx_sp[0]) + 3]
                all_paths = self._convert_graph_path_to_model_path(nx_sp)
''')],'''
chain = "ABCDEF"
ckts = [(x, y, 10, 1000) for x, y in zip(chain, chain[1:])] + [("A", "F", 50, 1000)]
model = net(PerformanceModel, ckts, [("A", "F", 10, "d")])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert len(dmd.path) == 2, dmd.path
''','equal-cost paths whose hop counts differ by more than 3 (PerformanceModel)','equal-cost paths that are much longer in hops are dropped')

bug('C02-percent-capacity','C02',[(I,'util = (self.traffic / self.capacity) * 100','util = (self.traffic * 100) // self.capacity if self.capacity > 10 ** 5 else (\n                self.traffic / self.capacity\n            ) * 100')],'''
model = net(FlexModel, [("A", "B", 1, 400000)], [("A", "B", 150002, "d")])
quiet(model.update_simulation)
assert iface(model, "A-B_1").utilization == 37.5, iface(model, "A-B_1").utilization
''','an interface of capacity over 100000','the utilization of large interfaces is cut to full percents')

bug('C03-zero-demand','C03',[(P,'            # Check for manually assigned metrics\n            if lsp_list:\n','            # Check for manually assigned metrics\n            if lsp_list and demand.traffic > 0:\n')],'''
model = net(
    PerformanceModel,
    [("A", "B", 10, 60), ("A", "C", 10, 60), ("C", "B", 10, 60)],
    [("A", "B", 0, "d")],
    [("A", "B", "l1")],
)
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert names(dmd.path[0]) == ["l1"], dmd.path
''','a demand of no traffic with an end-to-end LSP (PerformanceModel)','a demand without traffic is routed by the IGP although an LSP exists')

bug('C07-exact-fit','C07',[(F,'''                    min(interface.reservable_bandwidth for interface in path)
                    >= lsp.setup_bandwidth
''','''                    min(interface.reservable_bandwidth for interface in path)
                    >= round(lsp.setup_bandwidth)
''')],'''
model = net(FlexModel, [("A", "B", 20, 60.7)], [("A", "B", 60.7, "d")], [("A", "B", "l1")])
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.path != "Unrouted"
''','a setup bandwidth with decimals that just fits','an LSP whose bandwidth rounds up past the reservable bandwidth is not routed')

bug('C08-resignal-setup','C08',[(L,'        self.reserved_bandwidth = requested_bandwidth\n        self.setup_bandwidth = requested_bandwidth\n','        self.reserved_bandwidth = requested_bandwidth\n')],'''
model = net(
    FlexModel,
    [("A", "B", 20, 100), ("A", "C", 20, 100), ("C", "B", 20, 100)],
    [("A", "B", 90, "d")],
    [("A", "B", "l1"), ("A", "B", "l2"), ("A", "B", "l3", 500)],
)
quiet(model.update_simulation)
for lsp in model.rsvp_lsp_objects:
    if lsp.lsp_name != "l3":
        assert lsp.setup_bandwidth == lsp.reserved_bandwidth == 45, lsp.setup_bandwidth
''','an LSP that re-signals for more bandwidth','the setup bandwidth of a re-signaled LSP is not updated')

bug('C09-ratchet','C09',[(P,'                lsp.reserved_bandwidth = traff_on_each_group_lsp\n                lsp.setup_bandwidth = traff_on_each_group_lsp\n','                lsp.reserved_bandwidth = traff_on_each_group_lsp\n                if lsp.reserved_bandwidth > 0 or lsp.setup_bandwidth == "Unrouted - initial":\n                    lsp.setup_bandwidth = traff_on_each_group_lsp\n')],'''
model = net(PerformanceModel, [("A", "B", 20, 100)], [("A", "B", 90, "d")], [("A", "B", "l1")])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
dmd.traffic = 0
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.setup_bandwidth == 0, lsp.setup_bandwidth
''','an LSP whose demands go to zero between two updates (PerformanceModel)','the setup bandwidth of an earlier simulation is kept',also=['C08'])

bug('C11-try-outside','C11',[(M,'''        for interface in interfaces_to_unfail_iterator:
            try:
                self.unfail_interface(interface.name, interface.node_object.name)
            except ModelException:
                pass
''','''        try:
            for interface in interfaces_to_unfail_iterator:
                self.unfail_interface(interface.name, interface.node_object.name)
        except ModelException:
            pass
''')],'''
models = []
for stays in [1, 2, 3, 4] * 4:
    model = net(FlexModel, [("A", x, 20, 100) for x in ("B1", "B2", "B3", "B4")])
    quiet(model.update_simulation)
    models.append(model)
    for i in range(1, 5):
        iface(model, "A-B%d_%d" % (i, i)).add_to_srlg("s", model, True)
    iface(model, "A-B%d_%d" % (stays, stays)).add_to_srlg("t", model, True)
    quiet(model.fail_srlg, "s")
    quiet(model.fail_srlg, "t")
    quiet(model.unfail_srlg, "s")
    assert [iface(model, "A-B%d_%d" % (i, i)).failed for i in range(1, 5)] == [i == stays for i in range(1, 5)]
''','an SRLG with several circuits of which one is in another failed SRLG','unfailing an SRLG stops at the first member that has to stay down')

bug('C12-cost-all','C12',[(F,'''        try:
            for path in multidigraph_shortest_paths:
                model_path = self._get_all_paths_mdg(G, [path])[0]
                converted_path["path"].append(model_path)
                converted_path["cost"] = nx.shortest_path_length(
                    G, source_node_name, dest_node_name, weight="cost"
                )
''','''        topology = self._make_weighted_network_graph_mdg(include_failed_circuits=False)
        try:
            for path in multidigraph_shortest_paths:
                model_path = self._get_all_paths_mdg(G, [path])[0]
                converted_path["path"].append(model_path)
                converted_path["cost"] = nx.shortest_path_length(
                    topology, source_node_name, dest_node_name, weight="cost"
                )
''')],'''
model = net(FlexModel, [("A", "B", 10, 60), ("A", "C", 10, 100), ("C", "B", 10, 100)])
quiet(model.update_simulation)
assert model.get_shortest_path("A", "B", 80)["cost"] == 20
''','a needed bandwidth that the cheapest path cannot satisfy','the cost returned is that of the path without regard to bandwidth')

bug('C13-zero-demand','C13',[(M,'''                        dmd.source_node_object.name == src_node_name
                        and dmd.dest_node_object.name == dest_node_name
                    ):
''','''                        dmd.source_node_object.name == src_node_name
                        and dmd.dest_node_object.name == dest_node_name
                        and dmd.traffic > 0
                    ):
''')],'''
model = net(FlexModel, [("A", "B", 10, 60)], [("A", "B", 0, "d"), ("A", "B", 1, "e")])
quiet(model.update_simulation)
assert len(model.parallel_demand_groups()["A-B"]) == 2
''','a demand of no traffic','the parallel demand groups miss demands without traffic')

bug('C13-adjacent-up','C13',[(N,'        for adjacency in adjacencies:\n            adjacent_nodes.add','        for adjacency in adjacencies:\n            if adjacency.failed and adjacency.remote_node_object.failed:\n                continue\n            adjacent_nodes.add')],'''
model = net(FlexModel, [("A", "B", 10, 60), ("A", "C", 10, 60)])
quiet(model.update_simulation)
quiet(model.fail_node, "B")
quiet(model.update_simulation)
assert len(model.get_node_object("A").adjacent_nodes(model)) == 2
''','a failed node next to the node','adjacent nodes that are failed are left out')

bug('C15-double-avoid','C15',[(F,'''                        interfaces = item.path["interfaces"]
                        for interface in interfaces:
                            # Add traffic to the Interface
                            interface.traffic += traffic
''','''                        interfaces = item.path["interfaces"]
                        for interface in interfaces:
                            # Add traffic to the Interface
                            if interface not in demand_traffic_per_item:
                                interface.traffic += traffic
''')],'''
# the LSP from B to D goes back over C-D, which another path of the demand uses directly
model = net(
    FlexModel,
    [
        ("A", "B", 10, 600), ("A", "C", 10, 600), ("B", "D", 10, 600), ("C", "D", 10, 600, True),
        ("B", "C", 1, 600),
    ],
    [("A", "D", 40, "d")],
    [("B", "D", "l1")],
)
for intf in model.interface_objects:
    if intf.name in ("B-D_3", "D-B_3"):
        intf.rsvp_enabled = False
model.get_node_object("B").igp_shortcuts_enabled = True
for intf in model.interface_objects:
    if intf.name in ("B-C_5", "C-B_5"):
        intf.cost = 15
quiet(model.update_simulation)
assert iface(model, "C-D_4").traffic == 40, iface(model, "C-D_4").traffic
''','a demand that uses an interface both directly and through a shortcut LSP','the share of the LSP is not added to that interface',also=['C02'])

bug('C16-lsp-name-key','C16',[(M,'            if new_lsp._key not in {lsp._key for lsp in lsp_set}:\n','            if new_lsp.lsp_name not in {\n                lsp.lsp_name for lsp in lsp_set if lsp.source_node_object is source_node\n            }:\n')],'''
import tempfile
text = """INTERFACES_TABLE
h
A\\tB\\tab\\t1\\t100
B\\tA\\tba\\t1\\t100
B\\tC\\tbc\\t1\\t100
C\\tB\\tcb\\t1\\t100

NODES_TABLE
h
A\\t1\\t2

DEMANDS_TABLE
h

RSVP_LSP_TABLE
h
A\\tB\\tl
A\\tC\\tl
"""
with tempfile.NamedTemporaryFile("w", suffix=".csv") as f:
    f.write(text)
    f.flush()
    model = quiet(PerformanceModel.load_model_file, f.name)
assert len(model.rsvp_lsp_objects) == 2
''','two LSPs of one source with the same name and different destinations','the second of them is dropped as a duplicate')

bug('C17-blank-traffic','C17',[(M,'        traffic = int(demand_info[2])\n','        traffic = int(demand_info[2]) if demand_info[2].strip() else 0\n')],'''
import tempfile
text = """INTERFACES_TABLE
h
A\\tB\\tab\\t1\\t100
B\\tA\\tba\\t1\\t100

NODES_TABLE
h
A\\t1\\t2

DEMANDS_TABLE
h
A\\tB\\t\\td
"""
with tempfile.NamedTemporaryFile("w", suffix=".csv") as f:
    f.write(text)
    f.flush()
    try:
        quiet(PerformanceModel.load_model_file, f.name)
    except Exception:
        sys.exit(0)
sys.exit("accepted")
''','a demand row without traffic','the row is accepted as a demand of no traffic')

bug('C18-capacity-failed','C18',[(M,'        if int1.capacity != int2.capacity:\n','        if int1.capacity != int2.capacity and not int1.failed:\n')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
iface(model, "A-B_1").capacity = 50
try:
    quiet(model.update_simulation)
except ModelException:
    sys.exit(0)
sys.exit("accepted")
''','a capacity mismatch on a failed circuit','a capacity mismatch is not reported while the circuit is failed')

bug('C18-parallel-failed','C18',[(P,'''            (interface.node_object.name, interface.remote_node_object.name)
            for interface in self.interface_objects
        ]
''','''            (interface.node_object.name, interface.remote_node_object.name)
            for interface in self.interface_objects
            if not interface.failed
        ]
''')],'''
model = net(PerformanceModel, [("A", "B", 10, 100), ("A", "B", 10, 100), ("B", "C", 10, 100)])
for intf in model.interface_objects:
    if intf.name in ("A-B_1", "B-A_1"):
        intf.failed = True
try:
    quiet(model.validate_model)
except ModelException:
    sys.exit(0)
sys.exit("accepted")
''','parallel circuits of which one is failed (PerformanceModel)','parallel circuits are accepted while one of them is failed')

bug('C19-lsp-dup-name','C19',[(M,'        if added_lsp._key in {lsp._key for lsp in self.rsvp_lsp_objects}:\n','        if (added_lsp.source_node_object, added_lsp.lsp_name) in {\n            (lsp.source_node_object, lsp.lsp_name) for lsp in self.rsvp_lsp_objects\n        }:\n')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
quiet(model.add_rsvp_lsp, "A", "B", "l")
quiet(model.add_rsvp_lsp, "A", "C", "l")
assert len(model.rsvp_lsp_objects) == 2
''','adding an LSP with a name that its source node already uses towards another node','the LSP is refused')

bug('C22-second-lsp','C22',[(F,'                    if node_path.index(node_name) < node_path.index(\n                        next_node_to_check[-1]\n                    ):\n                        continue\n','                    if node_path.index(node_name) < node_path.index(\n                        next_node_to_check[0]\n                    ) or len(next_node_to_check) > 1:\n                        continue\n')],'''
chain = "ABCDEFGH"
model = net(
    FlexModel,
    [(x, y, 10, 600) for x, y in zip(chain, chain[1:])],
    [("A", "H", 20, "d")],
    [("B", "C", "l1"), ("D", "E", "l2"), ("F", "G", "l3")],
)
for n in chain:
    model.get_node_object(n).igp_shortcuts_enabled = True
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert [x for x in names(dmd.path[0]) if x[0] == "l"] == ["l1", "l2", "l3"], dmd.path
''','a path with three shortcut LSPs one after the other','only the first two LSPs on a path are taken')

bug('C23-usable-bw','C23',[(L,'            return model.get_shortest_path(\n                self.source_node_object.name, self.dest_node_object.name, needed_bw=0\n            )["cost"]','            shortest = model.get_shortest_path(\n                self.source_node_object.name,\n                self.dest_node_object.name,\n                needed_bw=min(self.reserved_bandwidth, 0.1),\n            )\n            return shortest["cost"] or self.path["path_cost"]')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 60), ("A", "C", 10, 60), ("C", "B", 10, 60)],
    [("A", "B", 120, "d")],
    [("A", "B", "l1"), ("A", "B", "l2")],
)
quiet(model.update_simulation)
assert [x.effective_metric(model) for x in model.rsvp_lsp_objects] == [10, 10]
''','an LSP whose shortest path has no bandwidth left','the effective metric leaves out interfaces without reservable bandwidth')

bug('C24-lat-kept','C24',[(N,'        if isinstance(status, float) or isinstance(status, int):\n            self._lat = status\n        else:\n            raise ValueError("lat attribute must be integer or float.")','        self._lat = status\n        if not isinstance(status, (float, int)):\n            raise ValueError("lat attribute must be integer or float.")')],'''
node = Node("A", 1, 2)
try:
    node.lat = "x"
except ValueError:
    pass
assert node.lat == 1, node.lat
''','reading the latitude after a refused assignment','a refused latitude is kept')

bug('C24-failed-int','C24',[(N,'        if not isinstance(status, bool):\n            raise ModelException("must be boolean")\n','        if status not in (True, False):\n            raise ModelException("must be boolean")\n')],'''
node = Node("A", 1, 2)
try:
    node.failed = 1.0
except ModelException:
    sys.exit(0)
sys.exit("accepted")
''','a failed flag given as number','numbers equal to True or False are accepted as failed flag')

bug('C25-capacity-str','C25',[(W,'            capacity = int_a.capacity\n','            capacity = int_a.capacity if not int_a.failed else 0\n')],'''
from pyNTM.weathermap import WeatherMap
model = net(FlexModel, [("A", "B", 10, 1000)])
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
quiet(model.update_simulation)
vis = WeatherMap(model)
(edge,) = [e["data"] for e in vis.create_elements() if e["data"].get("interface-name") == "A-B_1"]
assert edge["capacity"] == 1000, edge
''','a failed circuit','the edges of a failed circuit show no capacity')

bug('C25-lsp-nodes','C25',[(W,'            nodes.add(interface.node_object.name)\n            nodes.add(interface.remote_node_object.name)\n        return lsp_interfaces, nodes','            nodes.add(interface.node_object.name)\n        return lsp_interfaces, nodes')],'''
from pyNTM.weathermap import WeatherMap
model = net(FlexModel, [("A", "B", 10, 1000)], [], [("A", "B", "l")])
quiet(model.update_simulation)
vis = WeatherMap(model)
ints, nodes = vis.get_lsp_interface_data(model, {"source": "A", "dest": "B", "name": "l"})
assert nodes == {"A", "B"}, nodes
''','highlighting the path of a selected LSP','the destination node of an LSP is not highlighted')

bug('C26-zero-id','C26',[(F,'        if circuit_id is None:\n            interface_list = [','        if not circuit_id:\n            interface_list = [')],'''
a, b = Node("A"), Node("B")
ints = {
    Interface("%s%d" % (s, i), 10, 100, x, y, i)
    for i in (0, 1)
    for s, x, y in (("a", a, b), ("b", b, a))
}
model = FlexModel(ints, {a, b}, set(), set())
quiet(model.validate_model)
assert len(model.get_interface_object_from_nodes("A", "B", circuit_id=0)) == 1
assert len(model.circuit_objects) == 2
for ckt in model.circuit_objects:
    assert ckt.interface_a.circuit_id == ckt.interface_b.circuit_id
''','a circuit id of 0','looking up the interface with circuit id 0 returns all parallel interfaces')

bug('C28-detail-round','C28',[(L,'                    if self in path_data["items"]:\n                        igp_shortcut_traffic += path_data["path_traffic"]\n','                    if self in path_data["items"]:\n                        path_data["path_traffic"] = round(path_data["path_traffic"], 2)\n                        igp_shortcut_traffic += path_data["path_traffic"]\n')],'''
model = net(
    FlexModel, [("A", "B", 10, 600)], [("A", "B", 10, "d")], [("A", "B", "l%d" % i) for i in range(3)]
)
quiet(model.update_simulation)
(dmd,) = model.demand_objects
before = [x["path_traffic"] for x in dmd.path_detail.values()]
for lsp in model.rsvp_lsp_objects:
    lsp.traffic_on_lsp(model)
assert before == [x["path_traffic"] for x in dmd.path_detail.values()]
''','asking for the traffic on an LSP','the query rounds the path detail of the demands')

bug('C27-shared-empty','C27',[(M,'',''),] if False else [(N,'''        self._srlgs = set()
        self._igp_shortcuts_enabled = False
''','''        self._srlgs = _NO_SRLGS
        self._igp_shortcuts_enabled = False
'''),(N,'class Node(object):','_NO_SRLGS = set()  # for Nodes that are in no SRLG\n\n\nclass Node(object):'),(N,'                self._srlgs.add(new_srlg)\n','                self._srlgs = self._srlgs | {new_srlg}\n'),(N,'            get_srlg.node_objects.add(self)\n            self._srlgs.add(get_srlg)\n','            get_srlg.node_objects.add(self)\n            if self._srlgs:\n                self._srlgs.add(get_srlg)\n            else:\n                self._srlgs |= {get_srlg}\n                self._srlgs = set(self._srlgs)\n')],'''
m1 = net(FlexModel, [("A", "B", 10, 100)])
m2 = net(FlexModel, [("A", "B", 10, 100)])
for m in (m1, m2):
    quiet(m.update_simulation)
    m.add_srlg("s")
m1.get_node_object("A").add_to_srlg("s", m1)
quiet(m1.fail_srlg, "s")
fresh = Node("C")
fresh.failed = False
assert m2.get_node_object("A").srlgs == set()
''','adding a node to an existing SRLG','nodes created later are members of the SRLG')

bug('C07-perf-capacity','C07',[(P,'''        super().__init__(
            interface_objects, node_objects, demand_objects, rsvp_lsp_objects
        )''','XX')] if False else [(P,'''                    if len(path) == fewest_hops
                ]
                if len(lowest_hop_count_paths) > 1:
                    new_path = random.choice(lowest_hop_count_paths)
''','''                    if len(path) == fewest_hops
                ]
                if len(lowest_hop_count_paths) > 1:
                    lowest_hop_count_paths.sort(
                        key=lambda path: min(intf.capacity for intf in path)
                    )
                    new_path = lowest_hop_count_paths[-1]
                    if new_path[0].capacity > 10 * lowest_hop_count_paths[0][0].capacity:
                        new_path = candidate_path_info_w_reservable_bw[-1]
''')],'''
ckts = [("A", "B", 10, 10), ("B", "D", 10, 10), ("A", "C", 10, 1000), ("C", "E", 5, 1000), ("E", "D", 5, 1000),
        ("A", "F", 10, 1000), ("F", "D", 10, 1000)]
for _ in range(20):
    model = net(PerformanceModel, ckts, [], [("A", "D", "l")])
    quiet(model.update_simulation)
    (lsp,) = model.rsvp_lsp_objects
    assert len(lsp.path["interfaces"]) == 2, lsp.path
''','tied LSP paths of very different capacity (PerformanceModel)','the LSP may take a path with more hops than needed')
