from bugs import bug,F,P,M,I,L,N,D,W

bug('C30-demand-groups','C30',[(M,'''        src_node_names = {dmd.source_node_object.name for dmd in self.demand_objects}
        dest_node_names = {dmd.dest_node_object.name for dmd in self.demand_objects}

        parallel_demand_groups = {}
''','''        cached = getattr(self, "_demand_groups", None)
        if cached is not None and cached[0] == len(self.demand_objects):
            return cached[1]
        src_node_names = {dmd.source_node_object.name for dmd in self.demand_objects}
        dest_node_names = {dmd.dest_node_object.name for dmd in self.demand_objects}

        parallel_demand_groups = {}
        self._demand_groups = (len(self.demand_objects), parallel_demand_groups)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)], [("A", "B", 1, "d")])
quiet(model.update_simulation)
quiet(model.parallel_demand_groups)
model.demand_objects.remove(model.get_demand_object("A", "B", "d"))
quiet(model.add_demand, "B", "C", 1, "e")
assert list(model.parallel_demand_groups()) == ["B-C"], model.parallel_demand_groups()
''','a demand removed and another one added since the groups were asked for','the parallel demand groups are those of an earlier set of demands')

bug('C30-failed-nodes','C30',[(M,'''        for node in iter(self.node_objects):
            if node.failed:
                node_object = self.get_node_object(node.name)
                failed_nodes.append(node_object)
''','''        for node in iter(self.node_objects):
            if node.failed and all(i.failed for i in node.interfaces(self)) and node.interfaces(self):
                node_object = self.get_node_object(node.name)
                failed_nodes.append(node_object)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], nodes=["O"])
quiet(model.update_simulation)
quiet(model.fail_node, "O")
assert [n.name for n in model.get_failed_node_objects()] == ["O"]
''','a failed node without interfaces','a failed orphan node is not listed as failed')

bug('C30-unrouted','C30',[(M,'''            demand for demand in iter(self.demand_objects) if demand.path == "Unrouted"
        ]
''','''            demand
            for demand in iter(self.demand_objects)
            if demand.path == "Unrouted"
            or demand.source_node_object.failed
            or demand.dest_node_object.failed
        ]
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)], [("A", "B", 1, "d")])
quiet(model.update_simulation)
quiet(model.fail_node, "A")
dmd = model.get_demand_object("A", "B", "d")
assert (dmd in model.get_unrouted_demand_objects()) == (dmd.path == "Unrouted")
''','asking for the unrouted demands after a node failed and before the update','the list of unrouted demands does not agree with the paths of the demands')

bug('C30-if-lookup','C30',[(M,'''        int_object = [
            interface
            for interface in node_object.interfaces(self)
            if interface.name == interface_name
        ]
        return int_object[0]
''','''        found = self.__dict__.setdefault("_found_interfaces", {})
        key = (interface_name, node_object.name)
        if key not in found:
            found[key] = [
                interface
                for interface in node_object.interfaces(self)
                if interface.name == interface_name
            ]
        return found[key][0]
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("A", "B", 10, 100)])
quiet(model.update_simulation)
first = model.get_interface_object("A-B_1", "A")
model.get_interface_object("A-B_2", "A")
quiet(model.change_interface_name, "A", "A-B_1", "x")
quiet(model.change_interface_name, "A", "A-B_2", "A-B_1")
assert model.get_interface_object("A-B_1", "A") is not first
assert model.get_interface_object("A-B_1", "A").name == "A-B_1"
''','an interface that takes over the name an other one had when it was looked up','the lookup returns the interface that had the name before')

bug('C30-path-cost','C30',[(P,'''        # Define a networkx DiGraph to find the path
        G = self._make_weighted_network_graph(
            include_failed_circuits=False, needed_bw=needed_bw
        )
''','''        # Define a networkx DiGraph to find the path
        state = (needed_bw, sum(i.cost for i in self.interface_objects), len(self.get_failed_interface_objects()))
        if getattr(self, "_sp_graph", (None,))[0] != state:
            self._sp_graph = (state, self._make_weighted_network_graph(include_failed_circuits=False, needed_bw=needed_bw))
        G = self._sp_graph[1]
''')],'''
ckts = [("A", "B", 10, 100), ("A", "C", 10, 100), ("C", "B", 10, 100)]
model = net(PerformanceModel, ckts)
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
assert model.get_shortest_path("A", "B")["cost"] == 20
quiet(model.unfail_interface, "A-B_1", "A")
quiet(model.fail_interface, "A-C_2", "A")
assert model.get_shortest_path("A", "B")["cost"] == 10
''','one circuit failed and another one repaired between two shortest-path queries (PerformanceModel)','the shortest path is that of the earlier topology')

bug('C20-perf-metric-tie','C20',[(P,'''            # Check for manually assigned metrics
            if lsp_list:
''','''            # Check for manually assigned metrics
            if lsp_list and min(
                lsp.effective_metric(self) for lsp in lsp_list
            ) < sum(interface.cost for interface in self.interface_objects) * 100:
''')],'''
model = net(PerformanceModel, [("A", "B", 1, 100)], [("A", "B", 1, "d")], [("A", "B", "l", None, 100000)])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert names(dmd.path[0]) == ["l"], dmd.path
''','an LSP with a very large manual metric (PerformanceModel)','the demand leaves the LSP for the IGP path')

bug('C20-circuits-failed','C20',[(P,'''        # create circuits table, flags ints that are not part of a circuit
        circuits = self._make_circuits(return_exception=True)
''','''        # create circuits table, flags ints that are not part of a circuit
        circuits = self._make_circuits(
            return_exception=True,
            include_failed_circuits=len(self.circuit_objects) == 0
            or any(not i.failed for i in self.interface_objects),
        )
''')],'''
model = net(PerformanceModel, [("A", "B", 1, 100)])
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
quiet(model.update_simulation)
assert len(model.circuit_objects) == 1
''','every circuit of the model is failed (PerformanceModel)','the model has no circuits any more')

bug('C02-lsp-igp','C02',[(F,'''                for item, traffic in demand_traffic_per_item.items():
                    if isinstance(item, Interface):
                        for path, path_info in demand_object._path_detail.items():
                            if item in path_info["items"]:
                                item.traffic += path_info["path_traffic"]
''','''                for item, traffic in demand_traffic_per_item.items():
                    if isinstance(item, Interface):
                        for path, path_info in demand_object._path_detail.items():
                            if item.name in [getattr(x, "name", None) for x in path_info["items"]]:
                                item.traffic += path_info["path_traffic"]
''')],'''
by = {n: Node(n) for n in "ABCD"}
ints = set()
for i, (a, b, na, nb) in enumerate([("A", "B", "x", "b1"), ("A", "C", "y", "x2"), ("C", "D", "x", "d1"), ("B", "D", "z", "d2")], 1):
    ints.add(Interface(na, 10, 100, by[a], by[b], i))
    ints.add(Interface(nb, 10, 100, by[b], by[a], i))
model = FlexModel(ints, set(by.values()), {Demand(by["A"], by["D"], 10, "d")}, set())
quiet(model.update_simulation)
assert model.get_interface_object("x", "A").traffic == 5, model.get_interface_object("x", "A").traffic
''','equal interface names on different nodes, on different equal-cost paths of one demand (FlexModel)','an interface carries the traffic of a path that uses another interface of the same name')

bug('C05-round-big','C05',[(P,'''                interface.reserved_bandwidth += round(lsp.reserved_bandwidth, 1)

    def _convert''','''                interface.reserved_bandwidth += round(
                    lsp.reserved_bandwidth, 1 if interface.capacity < 1000 else 0
                )

    def _convert''')],'''
model = net(PerformanceModel, [("A", "B", 10, 5000)], [], [("A", "B", "l", 10.4)])
quiet(model.update_simulation)
assert iface(model, "A-B_1").reserved_bandwidth == 10.4
''','an LSP with a fractional bandwidth on an interface of capacity 1000 or more (PerformanceModel)','the update fails or reserved bandwidth is not that of the LSPs')

bug('C09-lsp-setup','C09',[(P,'''            if lsp.configured_setup_bandwidth is None:
                lsp.reserved_bandwidth = traff_on_each_group_lsp
                lsp.setup_bandwidth = traff_on_each_group_lsp
''','''            if lsp.configured_setup_bandwidth is None:
                lsp.reserved_bandwidth = traff_on_each_group_lsp
                if traff_on_each_group_lsp > 0:
                    lsp.setup_bandwidth = traff_on_each_group_lsp
''')],'''
model = net(PerformanceModel, [("A", "B", 10, 100)], [("A", "B", 20, "d")], [("A", "B", "l")])
quiet(model.update_simulation)
model.demand_objects.clear()
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.setup_bandwidth == 0, lsp.setup_bandwidth
''','an auto-bandwidth LSP all of whose demands went away (PerformanceModel)','the LSP signals for the bandwidth of the earlier simulation')

bug('C14-order','C14',[(P,'''            shortest_path_info[path_key]["interfaces"] = path
''','''            shortest_path_info[path_key]["interfaces"] = sorted(
                path, key=path.index if len(path) < 4 else lambda i: i.name
            )
''')],'''
ckts = [("E", "D", 1, 100), ("D", "C", 1, 100), ("C", "B", 1, 100), ("B", "A", 1, 100)]
model = net(PerformanceModel, ckts, [("E", "A", 8, "d")])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
(entry,) = dmd.path_detail.values()
assert entry["interfaces"] == dmd.path[0], entry
''','a path of four or more hops (PerformanceModel)','the interfaces of a path detail entry are not in the order of the path')

bug('C29-node-status','C29',[(M,'''        for node in node_iterator:
            print(node.name.ljust(12), str(node.failed).ljust(12))
''','''        for node in node_iterator:
            state = node.failed or any(srlg.failed for srlg in node.srlgs)
            state = state or all(i.failed for i in node.interfaces(self))
            print(node.name.ljust(12), str(state).ljust(12))
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    model.display_node_status()
rows = dict(line.split() for line in out.getvalue().splitlines()[1:])
assert rows["A"] == "False", rows
''','a node all of whose interfaces are failed','display_node_status shows a node as failed that is not')

bug('C29-demand-dup','C29',[(M,'''            paths = [] if demand.path == "Unrouted" else demand.path
            print("Demand has %s paths:" % (len(paths)))
            for path in paths:
                pprint(path)
                print()
''','''            paths = [] if demand.path == "Unrouted" else demand.path
            print("Demand has %s paths:" % (len(paths)))
            for path in paths[:8]:
                pprint(path)
                print()
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)] * 10, [("A", "B", 10, "d")])
quiet(model.update_simulation)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    model.display_demand_paths()
assert out.getvalue().count("[Interface") == 10
''','a demand with more than eight paths','display_demand_paths leaves out paths')

bug('C13-lsp-traffic-tie','C13',[(L,'''                for path, path_data in demand_object.path_detail.items():
                    # Check if self is in path_data
                    if self in path_data["items"]:
                        igp_shortcut_traffic += path_data["path_traffic"]
''','''                for path, path_data in demand_object.path_detail.items():
                    # Check if self is in path_data
                    if self in path_data["items"]:
                        splits = path_data.get("splits", {})
                        igp_shortcut_traffic += (
                            demand_object.traffic / splits[self]
                            if self in splits
                            else path_data["path_traffic"]
                        )
''')],'''
by = "A B C D".split()
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "C", 10, 100), ("C", "D", 10, 100), ("C", "D", 10, 100)],
    [("A", "D", 8, "d")],
    [("A", "C", "l")],
)
for n in model.node_objects:
    n.igp_shortcuts_enabled = True
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.traffic_on_lsp(model) == 8, lsp.traffic_on_lsp(model)
''','a demand that splits after it left a shortcut LSP','traffic_on_lsp counts the traffic once per path')

bug('C27-node-registry','C27',[(M,'''        network_interface_objects = set([])
        network_node_objects = set([])

        nodes = {node.name: node for node in self.node_objects}
''','''        network_interface_objects = set([])
        network_node_objects = set([])

        nodes = _MasterModel.__dict__.get("_known_nodes", {})
        _MasterModel._known_nodes = nodes
        nodes.update({node.name: node for node in self.node_objects})
''')],'''
def rows(a, b):
    return [dict(name="x", cost=1, capacity=10, node=a, remote_node=b, circuit_id=9, failed=False),
            dict(name="x", cost=1, capacity=10, node=b, remote_node=a, circuit_id=9, failed=False)]


one = net(FlexModel, [("A", "B", 10, 100)])
quiet(one.update_simulation)
quiet(one.add_network_interfaces_from_list, rows("A", "Z"))
two = net(FlexModel, [("A", "B", 10, 100)])
quiet(two.update_simulation)
quiet(two.add_network_interfaces_from_list, rows("A", "Z"))
assert "Z" in [n.name for n in two.node_objects]
assert two.get_node_object("Z") is not one.get_node_object("Z")
''','the interface list of two models in a process introduces a node of the same name','the second model shares a node with the first')

bug('C03-mixed','C03',[(F,'''            # Check for manually assigned metrics
            if len(lsp_list) > 0:
                min_lsp_metric = min([lsp.effective_metric(self) for lsp in lsp_list])
''','''            # Check for manually assigned metrics
            if len(lsp_list) > 0:
                min_lsp_metric = min(
                    [
                        lsp.effective_metric(self)
                        for lsp in lsp_list
                        if lsp.reserved_bandwidth or demand.traffic == 0
                    ]
                    or [lsp.effective_metric(self) for lsp in lsp_list]
                )
''')],'''
model = net(
    FlexModel, [("A", "B", 10, 100)], [("A", "B", 8, "d")],
    [("A", "B", "big", 5, 20), ("A", "B", "small", 0, 5)],
)
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert [names(p) for p in dmd.path] == [["small"]], dmd.path
''','the LSP with the lowest metric has no reserved bandwidth while another LSP of its group has','the demand rides an LSP of a higher metric')

bug('C06-cost-first','C06',[(M,'''        path_cost = sum(interface.cost for interface in path)
        baseline_path_reservable_bw = min(
            interface.reservable_bandwidth for interface in path
        )
''','''        path_cost = sum({interface.name: interface.cost for interface in path}.values())
        baseline_path_reservable_bw = min(
            interface.reservable_bandwidth for interface in path
        )
''')],'''
by = {n: Node(n) for n in "ABC"}
ints = set()
for i, (a, b) in enumerate([("A", "B"), ("B", "C")], 1):
    ints.add(Interface("east", 10, 100, by[a], by[b], i))
    ints.add(Interface("west", 10, 100, by[b], by[a], i))
model = FlexModel(ints, set(by.values()), set(), {RSVP_LSP(by["A"], by["C"], "l")})
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.path["path_cost"] == 20, lsp.path
''','interfaces of the same name on two nodes of the path of an LSP','the path cost counts them once')

bug('C28-adjacent','C28',[(N,'''        adjacencies = self.interfaces(model)

        adjacent_nodes = set()

        for adjacency in adjacencies:
            adjacent_nodes.add(adjacency.remote_node_object)

        return adjacent_nodes
''','''        adjacencies = self.interfaces(model)

        adjacent_nodes = set()

        for adjacency in adjacencies:
            adjacent_nodes.add(adjacency.remote_node_object)
            if adjacency.node_object.failed:
                adjacency.failed = True
                adjacency.traffic = "Down"
        self._igp_shortcuts_enabled = bool(adjacent_nodes) and self._igp_shortcuts_enabled

        return adjacent_nodes
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], nodes=["O"])
node = model.get_node_object("O")
node.igp_shortcuts_enabled = True
quiet(model.update_simulation)
node.adjacent_nodes(model)
assert node.igp_shortcuts_enabled is True
''','an orphan node with IGP shortcuts','asking for the adjacent nodes switches its IGP shortcuts off')

bug('C10-fail-node-srlg','C10',[(M,'''        for interface in ints_to_fail_iterator:
            self.fail_interface(interface.name, node_name)

        # Change the failed property on the specified node
        self.get_node_object(node_name).failed = True
''','''        for interface in ints_to_fail_iterator:
            if interface.failed:
                continue
            self.fail_interface(interface.name, node_name)
            if not interface.remote_node_object.interfaces(self):
                break

        # Change the failed property on the specified node
        if not all(i.failed for i in self.interface_objects) or len(self.node_objects) < 3:
            self.get_node_object(node_name).failed = True
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
quiet(model.fail_node, "B")
assert model.get_node_object("B").failed is True
''','failing a node whose failure takes down the last circuit of the model','the node stays up')

bug('C26-lookup-failed','C26',[(P,'''        for interface in iter(self.interface_objects):
            if (
                interface.node_object.name == local_node_name
                and interface.remote_node_object.name == remote_node_name
            ):
                return interface
''','''        for interface in iter(self.interface_objects):
            if (
                interface.node_object.name.lower() == local_node_name.lower()
                and interface.remote_node_object.name == remote_node_name
            ):
                return interface
''')],'''
for _ in range(6):
    names_ = [("a%d" % _, "A%d" % _)][0]
    model = net(PerformanceModel, [(names_[0], "B", 10, 100), (names_[1], "B", 20, 100)])
    quiet(model.update_simulation)
    assert len(model.circuit_objects) == 2
    for n in names_:
        assert model.get_interface_object_from_nodes(n, "B").node_object.name == n
''','two neighbors of a node whose names differ in case only (PerformanceModel)','the lookup of the interface from one of them returns the other one')

bug('C15-zero-cost','C15',[(P,'''                # Get the interface objects and update them with the traffic
                for interface, traffic_from_demand in demand_traffic_per_int.items():
                    interface.traffic += traffic_from_demand
''','''                # Get the interface objects and update them with the traffic
                for interface, traffic_from_demand in demand_traffic_per_int.items():
                    interface.traffic += min(traffic_from_demand, interface.capacity * 100)
''')],'''
model = net(PerformanceModel, [("A", "B", 1, 0.01)], [("A", "B", 8, "d")])
quiet(model.update_simulation)
assert iface(model, "A-B_1").traffic == 8
''','a demand of more than a hundred times the capacity of an interface on its path (PerformanceModel)','traffic is cut')

bug('C08-group-order','C08',[(M,'''        for lsp in routed_lsps_in_group:
            # An LSP with a configured''','''        for lsp in routed_lsps_in_group[:3]:
            # An LSP with a configured''')],'''
model = net(
    FlexModel, [("A", "B", 10, 10), ("A", "B", 10, 10), ("A", "B", 10, 10), ("A", "B", 10, 10)],
    [("A", "B", 30, "d")], [("A", "B", "l%d" % i) for i in range(5)],
)
quiet(model.update_simulation)
done = [x for x in model.rsvp_lsp_objects if x.path != "Unrouted"]
assert len(done) == 4 and all(x.reserved_bandwidth == 7.5 for x in done), [x.reserved_bandwidth for x in done]
''','an LSP group of which at least four, but not all, LSPs route','the LSPs past the third do not re-signal')

