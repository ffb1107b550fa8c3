from bugs import bug,F,P,M,I,L,N,D,W

bug('C05-small-delta','C05',[(M,'''            if lsp_res_bw_before != lsp.reserved_bandwidth:
''','''            if round(lsp_res_bw_before) != round(lsp.reserved_bandwidth):
''')],'''
ckts = [("A", "B", 1, 0.3), ("A", "C", 1, 0.3), ("C", "B", 1, 0.3)]
model = net(FlexModel, ckts, [("A", "B", 0.6, "d")], [("A", "B", "l1"), ("A", "B", "l2"), ("A", "B", "l3")])
quiet(model.update_simulation)
routed = [x for x in model.rsvp_lsp_objects if x.path != "Unrouted"]
assert len(routed) == 2
for i in model.interface_objects:
    want = sum(x.reserved_bandwidth for x in routed if i in x.path["interfaces"])
    assert abs(i.reserved_bandwidth - want) < 0.01, (i.name, i.reserved_bandwidth, want)
''','an LSP of a group that routes partly and re-signals for an amount that rounds to the same integer','reservations of the interfaces keep the former amount')

bug('C05-resignal-int','C05',[(F,'''            if effective_reservable_bw >= needed_bw:
                eligible_interfaces.add(interface)
''','''            if effective_reservable_bw >= int(needed_bw):
                eligible_interfaces.add(interface)
''')],'''
ckts = [("A", "B", 1, 7.2), ("A", "C", 1, 7.2), ("C", "B", 1, 7.2)]
model = net(FlexModel, ckts, [("A", "B", 15, "d")], [("A", "B", "l1"), ("A", "B", "l2"), ("A", "B", "l3")])
quiet(model.update_simulation)
for i in model.interface_objects:
    assert i.reserved_bandwidth <= i.capacity, (i.name, i.reserved_bandwidth)
''','an LSP that re-signals for a fraction more than its path has','an interface is oversubscribed by less than one unit')

bug('C07-perf-hops','C07',[(P,'''                    [len(path) for path in candidate_path_info_w_reservable_bw]
''','''                    [len(path) for path in candidate_path_info_w_reservable_bw[:2]]
''')],'''
ckts = [("A", "B", 1, 100), ("B", "C", 1, 100), ("C", "E", 4, 100), ("A", "F", 1, 100), ("F", "D", 2, 100), ("D", "E", 3, 100)]
ckts += [("A", "G", 5, 100), ("G", "E", 1, 100)]
model = net(PerformanceModel, ckts, [("A", "E", 5, "d")], [("A", "E", "l1")])
quiet(model.update_simulation)
assert len(model.get_rsvp_lsp("A", "E", "l1").path["interfaces"]) == 2
''','three equal-cost paths of which the last one found has fewest hops','the LSP takes a longer path')

bug('C09-graph-cache','C09',[(F,'''        G = self._make_weighted_network_graph_mdg(include_failed_circuits=False)

        for demand in model.demand_objects:
            demand.path = []
''','''        # The graph only changes with the topology
        topology = (
            len(self.interface_objects),
            sum(interface.cost for interface in self.interface_objects),
            sum(interface.failed for interface in self.interface_objects),
        )
        if getattr(self, "_graph_topology", None) != topology:
            self._graph_topology = topology
            self._graph = self._make_weighted_network_graph_mdg(
                include_failed_circuits=False
            )
        G = self._graph

        for demand in model.demand_objects:
            demand.path = []
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("A", "C", 10, 100), ("C", "B", 10, 100)], [("A", "B", 6, "d")])
quiet(model.update_simulation)
model.fail_interface("A-B_1", "A")
quiet(model.update_simulation)
assert names(model.get_demand_object("A", "B", "d").path[0]) == ["A-C_2", "C-B_3"]
model.unfail_interface("A-B_1", "A")
model.fail_interface("A-C_2", "A")
quiet(model.update_simulation)
assert names(model.get_demand_object("A", "B", "d").path[0]) == ["A-B_1"]
''','one circuit is repaired and another failed between two updates','demands are routed over the network of an earlier update')

bug('C20-legacy-type','C20',[(L,'''        if isinstance(model, PerformanceModel) or isinstance(model, Model):
''','''        if type(model) is PerformanceModel:
'''),(L,'''        from .performance_model import PerformanceModel, Model
''','''        from .performance_model import PerformanceModel
''')],'''
from pyNTM import Model

model = net(Model, [("A", "B", 10, 100)], [("A", "B", 4, "d")], [("A", "B", "l1"), ("A", "B", "l2")])
quiet(model.update_simulation)
assert model.get_rsvp_lsp("A", "B", "l1").traffic_on_lsp(model) == 2
model = net(Model, [("A", "B", 10, 100)], [("A", "B", 4.00009, "d")], [("A", "B", "l1")])
quiet(model.update_simulation)
assert model.get_rsvp_lsp("A", "B", "l1").traffic_on_lsp(model) == 4.00009
''','traffic with more than four decimals in a model of the legacy class','the legacy class reports rounded traffic for an LSP')

bug('C04-rsvp-down','C04',[(P,'''            interface_object.traffic = "Down" if interface_object.failed else 0.0
''','''            interface_object.traffic = 0.0
            if interface_object.failed and interface_object.reservable_bandwidth >= 0:
                interface_object.traffic = "Down"
''')],'''
model = net(PerformanceModel, [("A", "B", 10, 100, False), ("B", "C", 10, 100)], [("A", "B", 4, "d")])
quiet(model.update_simulation)
model.fail_interface("A-B_1", "A")
quiet(model.update_simulation)
assert iface(model, "A-B_1").traffic == "Down"
''','a failed interface that is not RSVP enabled in a PerformanceModel','the failed interface reports a number')

bug('C06-same-name','C06',[(L,'''                if interface in self.path["interfaces"]:
''','''                if interface.name in [x.name for x in self.path["interfaces"]]:
''')],'''
from itertools import count

a, b, c, d = [Node(x) for x in "ABCD"]
ids = count(1)
interfaces = set()


def ckt(x, y, nx, ny, cost, capacity):
    i = next(ids)
    interfaces.add(Interface(nx, cost, capacity, x, y, i))
    interfaces.add(Interface(ny, cost, capacity, y, x, i))


ckt(a, b, "eth0", "eth1", 10, 8)
ckt(b, d, "eth0", "eth0", 10, 8)
ckt(a, c, "eth1", "eth1", 15, 40)
ckt(c, d, "eth0", "eth1", 15, 20)
model = FlexModel(interfaces, {a, b, c, d}, {Demand(a, d, 15, "d")}, {RSVP_LSP(a, d, "l"), RSVP_LSP(a, d, "x", 100)})
quiet(model.update_simulation)
for lsp in model.rsvp_lsp_objects:
    if lsp.path != "Unrouted":
        top = min(i.capacity for i in lsp.path["interfaces"])
        assert lsp.path["baseline_path_reservable_bw"] <= top, (lsp.path, top)
''','an LSP that re-signals over interfaces of other nodes with the same names as those of its first path','the baseline reservable bandwidth counts bandwidth twice')

bug('C22-overlap','C22',[(F,'''                        next_node_to_check[-1]
''','''                        next_node_to_check[0]
''')],'''
n = "ABCDE"
lsps = [("A", "B", "l1"), ("B", "D", "l2"), ("C", "E", "l3")]
model = net(FlexModel, [(a, b, 10, 100) for a, b in zip(n, n[1:])], [("A", "E", 6, "d")], lsps)
for x in n:
    model.get_node_object(x).igp_shortcuts_enabled = True
quiet(model.update_simulation)
assert [names(p) for p in model.get_demand_object("A", "E", "d").path] == [["l1", "l2", "D-E_4"]]
''','a second shortcut LSP that spans the start of a third one','the demand is taken off the LSP midway')
