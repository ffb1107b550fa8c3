B={}
F='flex_model.py';P='performance_model.py';M='master_model.py';I='interface.py';L='rsvp.py';N='node.py';D='demand.py';W='weathermap.py'
def bug(id,prop,edits,demo,needs,breaks,**k): B[id]=dict(prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k)

bug('C01-ecmp-cap','C01',[(F,'                    nx_sp = list(nx.all_shortest_paths(G, src, dest, weight="cost"))\n','                    all_sp = nx.all_shortest_paths(G, src, dest, weight="cost")\n                    nx_sp = list(itertools.islice(all_sp, 16))\n')],'''
# 3 x 3 x 3 equal cost paths through three stages
ckts = []
stages = [["A"], ["B1", "B2", "B3"], ["C1", "C2", "C3"], ["D1", "D2", "D3"], ["E"]]
for xs, ys in zip(stages, stages[1:]):
    ckts += [(x, y, 10, 1000) for x in xs for y in ys]
model = net(FlexModel, ckts, [("A", "E", 54, "d")])
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert len(dmd.path) == 27, len(dmd.path)
assert all(i.traffic == 6.0 for i in model.interface_objects if i.name[0] == "B" and "-C" in i.name)
''','more than 16 equal-cost node-level paths for one demand (FlexModel)','FlexModel routes a demand over at most 16 of its equal-cost shortest paths')

bug('C02-path-rounding','C02',[(P,'path_traffic = round(float(demand.traffic) / float(max_split), 4)','path_traffic = round(float(demand.traffic) / float(max_split), 2)')],'''
ckts = []
stages = [["A"], ["B1", "B2", "B3"], ["C1", "C2", "C3"], ["D1", "D2", "D3"], ["G1", "G2", "G3"], ["H1", "H2", "H3"], ["E"], ["F"]]
for xs, ys in zip(stages, stages[1:]):
    ckts += [(x, y, 10, 1000) for x in xs for y in ys]
model = net(PerformanceModel, ckts, [("A", "F", 10, "d%d" % i) for i in range(4)])
quiet(model.update_simulation)
last = [i for i in model.interface_objects if i.name.startswith("E-F")][0]
assert abs(last.traffic - 40) < 0.5, last.traffic
''','a PerformanceModel demand with many ECMP paths so that the rounding errors of the paths add up on a shared interface','path traffic is rounded to 2 instead of 4 decimals before being summed on interfaces')

bug('C02-util-trunc','C02',[(I,'return float("%.2f" % util)','return int(util * 100) / 100')],'''
model = net(FlexModel, [("A", "B", 1, 150)], [("A", "B", 100, "d")])
quiet(model.update_simulation)
assert iface(model, "A-B_1").utilization == 66.67
''','a utilization whose third decimal is 5 or more','utilization is truncated instead of rounded to two decimals')

bug('C03-unrouted-manual','C03',[(F,'''                    for lsp in self.parallel_lsp_groups()[key]
                    if "Unrouted" not in lsp.path
                ]
            except KeyError:
                lsp_list = []
''','''                    for lsp in self.parallel_lsp_groups()[key]
                    if lsp.effective_metric(self) != "Unrouted"
                ]
            except KeyError:
                lsp_list = []
''')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "C", 10, 100)],
    [("A", "C", 40, "d")],
    [("A", "C", "big", 400, 5), ("A", "C", "small", 10, 30)],
)
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert [names(p) for p in dmd.path] == [["small"]], dmd.path
''','an LSP with a manual metric (lowest of its group) that cannot be routed','a FlexModel demand path uses an unrouted LSP that has a manual metric')

bug('C06-resignal-failed','C06',[(F,'if (interface.failed is False and interface.rsvp_enabled is True)','if interface.rsvp_enabled is True')],'''
# two parallel circuits; the cheap one is failed; of two auto-bandwidth LSPs one routes and re-signals
model = net(
    FlexModel,
    [("A", "B", 5, 1000), ("A", "B", 10, 150)],
    [("A", "B", 150, "d")],
    [("A", "B", "l1"), ("A", "B", "l2", 100), ("A", "B", "l3", 100)],
)
quiet(model.update_simulation)
quiet(model.fail_interface, "A-B_1", "A")
for _ in range(6):
    quiet(model.update_simulation)
    for lsp in model.rsvp_lsp_objects:
        if "Unrouted" not in lsp.path:
            assert not any(i.failed for i in lsp.path["interfaces"]), lsp
''','an auto-bandwidth LSP that re-signals (only part of its group routed) while a cheaper interface with enough bandwidth is failed (FlexModel)','a re-signaled LSP may take a failed interface',also=['C04'])

bug('C05-percent-int','C05',[(I,'self.capacity * (self.percent_reservable_bandwidth / 100)','self.capacity * (self.percent_reservable_bandwidth // 1 / 100)')],'''
model = net(FlexModel, [("A", "B", 1, 1000, True, 62.5)], [("A", "B", 625, "d")], [("A", "B", "l")])
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.reserved_bandwidth == 625, lsp.path
assert iface(model, "A-B_1").reservable_bandwidth == 0
''','a fractional percent_reservable_bandwidth','the percent of reservable bandwidth is truncated to a whole number')

bug('C05-addback-parallel','C05',[(F,'            if interface in lsp_path_interfaces:\n','            if (interface.node_object, interface.remote_node_object) in [\n                (intf.node_object, intf.remote_node_object)\n                for intf in lsp_path_interfaces\n            ]:\n')],'''
# three LSPs of 40 each: one on each parallel link, the third does not fit; 60 needed to re-signal
model = net(
    FlexModel,
    [("A", "B", 10, 50), ("A", "B", 10, 70)],
    [("A", "B", 120, "d")],
    [("A", "B", "l%d" % i) for i in range(3)],
)
for _ in range(40):
    quiet(model.update_simulation)
    for i in model.interface_objects:
        assert i.reserved_bandwidth <= i.capacity, (i, i.reserved_bandwidth)
        assert i.reservable_bandwidth >= 0
''','an LSP that re-signals next to a parallel interface with too little bandwidth (FlexModel)','the own reservation of an LSP is credited to interfaces parallel to those it takes, so that they are oversubscribed')

bug('C06-baseline','C06',[(L,'interface.reservable_bandwidth + self.reserved_bandwidth\n','interface.reservable_bandwidth + self.setup_bandwidth / 2\n')],'''
model = net(
    FlexModel,
    [("A", "B", 1, 50), ("A", "B", 1, 60)],
    [("A", "B", 120, "d")],
    [("A", "B", "l%d" % i) for i in range(3)],
)
quiet(model.update_simulation)
for lsp in model.rsvp_lsp_objects:
    if "Unrouted" not in lsp.path:
        assert lsp.path["baseline_path_reservable_bw"] >= lsp.reserved_bandwidth
''','a re-signaled LSP that stays on an interface of its path','the baseline of a re-signaled LSP counts only half of its own reservation as available')

bug('C07-needed-int','C07',[(F,'                needed_bw=lsp.setup_bandwidth,\n','                needed_bw=int(lsp.setup_bandwidth),\n')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 10), ("A", "C", 10, 100), ("C", "B", 10, 100)],
    [],
    [("A", "B", "l", 10.4)],
)
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert "Unrouted" not in lsp.path
assert names(lsp.path["interfaces"]) == ["A-C_2", "C-B_3"]
''','a fractional setup bandwidth that falls between the reservable bandwidth of the best path and the next whole number','the topology for LSP signaling is cut by the truncated setup bandwidth, so that an LSP that does not fit the best path stays unrouted')

bug('C08-single-resignal','C08',[(M,'if len(routed_lsps_in_group) != len(lsps) and len(routed_lsps_in_group) > 0:','if 1 < len(routed_lsps_in_group) < len(lsps):')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 110)],
    [("A", "B", 100, "d")],
    [("A", "B", "l1"), ("A", "B", "l2", 105)],
)
quiet(model.update_simulation)
for lsp in model.rsvp_lsp_objects:
    if lsp.lsp_name == "l1" and "Unrouted" not in lsp.path:
        assert lsp.reserved_bandwidth == 100, lsp.reserved_bandwidth
model = net(
    FlexModel,
    [("A", "B", 10, 60), ("A", "B", 20, 30), ("A", "C", 1, 100)],
    [("A", "B", 60, "d"), ("C", "A", 10, "e")],
    [("A", "B", "l1"), ("A", "B", "l2", 61)],
)
quiet(model.update_simulation)
auto = model.get_rsvp_lsp("A", "B", "l1")
assert auto.reserved_bandwidth == 60, auto.reserved_bandwidth
''','an LSP group of which exactly one LSP, an auto-bandwidth one, routes','a single routed LSP of a group does not re-signal for the traffic it carries')

bug('C09-stale-groups','C09',[(F,'        self._parallel_lsp_groups = {}  # Reset the attribute\n','        grouped_lsps = sum(self._parallel_lsp_groups.values(), [])\n        if len(grouped_lsps) != len(self.rsvp_lsp_objects):\n            self._parallel_lsp_groups = {}  # Reset the attribute\n')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "C", 10, 100)],
    [("A", "C", 40, "d"), ("A", "B", 20, "e")],
    [("A", "C", "l1")],
)
quiet(model.update_simulation)
model.rsvp_lsp_objects = {RSVP_LSP(model.get_node_object("A"), model.get_node_object("B"), "l2")}
quiet(model.update_simulation)
assert [names(p) for p in model.get_demand_object("A", "C", "d").path] == [["A-B_1", "B-C_2"]]
assert [names(p) for p in model.get_demand_object("A", "B", "e").path] == [["l2"]]
''','removing LSPs and adding as many others between two updates (FlexModel)','the LSP groups are kept from the previous simulation if the number of LSPs is the same')

bug('C11-unfail-break','C11',[(M,'''        for node in nodes_to_unfail_iterator:
            try:
                self.unfail_node(node.name)
            except ModelException:
                pass
''','''        try:
            for node in nodes_to_unfail_iterator:
                self.unfail_node(node.name)
        except ModelException:
            pass
''')],'''
model = net(FlexModel, [("N%d" % i, "N%d" % (i + 1), 10, 100) for i in range(8)])
quiet(model.update_simulation)
for i in range(9):
    model.get_node_object("N%d" % i).add_to_srlg("s1", model, create_if_not_present=True)
model.get_node_object("N3").add_to_srlg("s2", model, create_if_not_present=True)
model.get_node_object("N5").add_to_srlg("s2", model)
quiet(model.fail_srlg, "s1")
quiet(model.fail_srlg, "s2")
quiet(model.unfail_srlg, "s1")
assert {n.name for n in model.get_failed_node_objects()} == {"N3", "N5"}
''','unfailing an SRLG with several nodes of which one is held by another failed SRLG','unfailing stops at the first node that another failed SRLG holds')

bug('C11-remove-remote','C11',[(I,'''                self.node_object.failed is False
                and self.remote_node_object.failed is False
            ):
                self._failed = False
''','''                self.node_object.failed is False
            ):
                self._failed = False
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)])
quiet(model.update_simulation)
iface(model, "A-B_1").add_to_srlg("s", model, create_if_not_present=True)
quiet(model.fail_node, "B")
quiet(iface(model, "A-B_1").remove_from_srlg, "s", model)
assert iface(model, "A-B_1").failed and iface(model, "B-A_1").failed
''','removing an interface from an SRLG while its remote node is failed','an interface comes up although its remote node is failed',also=['C10'])

bug('C13-first-hop','C13',[(M,'''                for object in path:
                    if isinstance(object, RSVP_LSP):
                        dmds_riding_lsps.add(dmd)
''','''                if isinstance(path[0], RSVP_LSP):
                    dmds_riding_lsps.add(dmd)
''')],'''
model = net(
    FlexModel,
    [("A", "B", 10, 100), ("B", "C", 10, 100)],
    [("A", "C", 40, "d")],
    [("B", "C", "l1")],
)
model.get_node_object("B").igp_shortcuts_enabled = True
quiet(model.update_simulation)
diag = model.simulation_diagnostics()
assert diag["Number of Demands riding LSPs"] == 1
''','a demand that meets its first LSP (IGP shortcut) after its first hop','simulation diagnostics do not count demands that enter an LSP after the first hop')

bug('C16-case','C16',[(F,'''            if node_name in node_names:
                node_object = [node for node in node_set if node.name == node_name][0]
            else:
                node_object = Node(node_name)
''','''            matching_nodes = [
                node for node in node_set if node.name.lower() == node_name.lower()
            ]
            if matching_nodes:
                node_object = matching_nodes[0]
            else:
                node_object = Node(node_name)
''')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity\tcircuit_id
b\tX\tx\t10\t100\t1
X\tb\ty\t10\t100\t1
B\tX\tv\t10\t100\t2
X\tB\tw\t10\t100\t2

NODES_TABLE
name\tlon\tlat

DEMANDS_TABLE
source\tdest\ttraffic\tname
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    model = quiet(FlexModel.load_model_file, folder + "/m.csv")
quiet(model.update_simulation)
assert {i.node_object.name for i in model.interface_objects} == {"b", "B", "X"}
''','a FlexModel file with two nodes whose names differ only in case','the interfaces of the second node are placed on the first one')

bug('C16-lsp-bw-int','C16',[(M,'configured_setup_bw = float(lsp_info[3])','configured_setup_bw = int(lsp_info[3])')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity
A\tB\tx\t10\t100
B\tA\ty\t10\t100

NODES_TABLE
name\tlon\tlat

DEMANDS_TABLE
source\tdest\ttraffic\tname

RSVP_LSP_TABLE
source\tdest\tname\tconfigured_setup_bw
A\tB\tl\t2.5
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    model = quiet(PerformanceModel.load_model_file, folder + "/m.csv")
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.reserved_bandwidth == 2.5
''','an LSP row with a fractional configured setup bandwidth','the LSP is loaded as an auto-bandwidth LSP')
bug('C17-three','C17',[(F,'            if circuit_id_list.count(item) != 2\n','            if circuit_id_list.count(item) % 2\n')],'''
import tempfile

text = """INTERFACES_TABLE
node_object_name\tremote_node_object_name\tname\tcost\tcapacity\tcircuit_id
A\tB\tx\t10\t100\t1
B\tA\tx\t10\t100\t1
C\tB\ty\t10\t100\t1
B\tC\ty\t10\t100\t1

NODES_TABLE
name\tlon\tlat

DEMANDS_TABLE
source\tdest\ttraffic\tname
"""
with tempfile.TemporaryDirectory() as folder:
    with open(folder + "/m.csv", "w") as f:
        f.write(text)
    try:
        quiet(FlexModel.load_model_file, folder + "/m.csv")
    except Exception:
        sys.exit(0)
sys.exit("loaded")
''','a FlexModel file with a circuit id that appears four times','a circuit id shared by two circuits is accepted')
bug('C18-capacity-int','C18',[(M,'        if int1.capacity != int2.capacity:\n','        if int(int1.capacity) != int(int2.capacity):\n')],'''
model = net(FlexModel, [("A", "B", 10, 100.5)])
quiet(model.update_simulation)
iface(model, "A-B_1").capacity = 100
try:
    quiet(model.update_simulation)
except ModelException:
    sys.exit(0)
sys.exit("accepted")
''','capacities of the ends of a circuit that differ by less than one','capacities that differ after the decimal point only are accepted')
bug('C21-cost-cap','C21',[(P,'                        "cost": interface.cost,\n','                        "cost": min(interface.cost, 65535),\n')],'''
model = net(
    PerformanceModel,
    [("A", "B", 100000, 100), ("A", "C", 60000, 100), ("C", "B", 60000, 100)],
    [("A", "B", 10, "d")],
)
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert [names(p) for p in dmd.path] == [["A-B_1"]]
model = net(
    PerformanceModel,
    [("A", "B", 140000, 100), ("A", "C", 60000, 100), ("C", "B", 60000, 100)],
    [("A", "B", 10, "d")],
)
quiet(model.update_simulation)
(dmd,) = model.demand_objects
assert [names(p) for p in dmd.path] == [["A-C_2", "C-B_3"]]
''','interface costs above 65535','interface costs are capped at 65535',n=2,also=['C01'])
bug('C24-capacity-kept','C24',[(I,'''        if not (capacity > 0):
            raise ModelException("Interface capacity must be greater than 0")
        self._capacity = capacity
''','''        self._capacity = capacity
        if not (capacity > 0):
            raise ModelException("Interface capacity must be greater than 0")
''')],'''
model = net(FlexModel, [("A", "B", 10, 10)])
i = iface(model, "A-B_1")
try:
    i.capacity = 0
except ModelException:
    pass
assert i.capacity == 10
''','reading the capacity after a refused assignment','a refused capacity is stored all the same')
bug('C26-str-id','C26',[(F,'                and interface.circuit_id == circuit_id\n            ]\n','                and str(interface.circuit_id) == str(circuit_id)\n            ]\n')],'''
a, b = Node("A"), Node("B")
ifaces = set()
for n, cid in (("x", 1), ("y", "1")):
    ifaces.add(Interface(n, 10, 100, a, b, cid))
    ifaces.add(Interface(n, 10, 100, b, a, cid))
model = FlexModel(ifaces, {a, b}, set(), set())
quiet(model.update_simulation)
assert len(model.circuit_objects) == 2
''','two parallel circuits whose circuit ids are equal as text but not as values (1 and "1")','circuit ids are compared as text')
bug('C27-cache','C27',[(L,'''            return model.get_shortest_path(
                self.source_node_object.name, self.dest_node_object.name, needed_bw=0
            )["cost"]''','''            key = (self._key[:2], id(self.path))
            if key not in self._metric_cache:
                self._metric_cache[key] = model.get_shortest_path(
                    self.source_node_object.name,
                    self.dest_node_object.name,
                    needed_bw=0,
                )["cost"]
            return self._metric_cache[key]'''),(L,'''    def __init__(
        self,
        source_node_object,''','''    # Default metrics by LSP path
    _metric_cache = {}

    def __init__(
        self,
        source_node_object,''')],'''
model = net(FlexModel, [("A", "B", 10, 10), ("A", "B", 20, 100)], [], [("A", "B", "l1", 50)])
quiet(model.update_simulation)
(lsp,) = model.rsvp_lsp_objects
assert lsp.effective_metric(model) == 10
quiet(model.fail_interface, "A-B_1", "A")
assert lsp.effective_metric(model) == 20
metrics = []
for cost in range(1, 40):
    model = net(FlexModel, [("A", "B", cost, 100)], [("A", "B", 1, "d")], [("A", "B", "l1", 50)])
    quiet(model.update_simulation)
    (lsp,) = model.rsvp_lsp_objects
    metrics.append(lsp.effective_metric(model))
    del model, lsp
assert metrics == list(range(1, 40)), metrics
''','several models, one after the other, in a process (or a metric read after an edit)','the default metric of an LSP is cached in the class across models by the identity of the path object',also=['C23'])
bug('C28-groups','C28',[(L,'''        parallel_routed_lsps = [
            lsp for lsp in parallel_lsp_groups[key] if "Unrouted" not in lsp.path
        ]
''','''        parallel_routed_lsps = parallel_lsp_groups[key]
        for lsp in list(parallel_routed_lsps):
            if "Unrouted" in lsp.path:
                parallel_routed_lsps.remove(lsp)
''')],'''
model = net(FlexModel, [("A", "B", 10, 10), ("A", "B", 20, 100)], [("A", "B", 5, "d")], [("A", "B", "l1", 50), ("A", "B", "l2", 500)])
quiet(model.update_simulation)
before = {k: set(v) for k, v in model.parallel_lsp_groups().items()}
for lsp in model.rsvp_lsp_objects:
    lsp.traffic_on_lsp(model)
assert {k: set(v) for k, v in model.parallel_lsp_groups().items()} == before
''','reading the traffic of an LSP that has an unrouted parallel LSP','traffic_on_lsp removes the unrouted LSPs from the cached LSP groups of the model')
import sys
sys.path.insert(0,'/verif/tools/plant')
import bugs2  # noqa
import bugs3  # noqa
import bugs4  # noqa
import bugs5  # noqa
import bugs6  # noqa
import bugs7  # noqa
import bugs8  # noqa

# changes that turned out not to count (tests catch them, the demonstration passes, or a fix has replaced the lines)
for _b in """C14-perf-splits C20-detail-two C22-topology-metric C13-lsp-demands-path C29-first-paths C06-perf-headroom C05-perf-release
C09-reserved-off C30-path-cost C05-round-big C09-lsp-setup C14-order C29-demand-dup C27-node-registry C07-flex-first C07-perf-min
C08-fixed-share C01-flex-graph C05-addback-parallel C05-percent-int C06-baseline C09-stale-groups C07-perf-capacity C18-full""".split():
    B.pop(_b, None)
