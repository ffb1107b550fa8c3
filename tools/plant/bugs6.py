from bugs import bug,F,P,M,I,L,N,D,W

bug('C14-lsp-index','C14',[(P,'''                "path_traffic": round((float(demand.traffic) / float(num_paths)), 4),
                "splits": {lsp: num_paths},
            }

            path_detail[path_name] = path_info
''','''                "path_traffic": round((float(demand.traffic) / float(num_paths)), 4),
                "splits": {lsp: num_paths},
            }

            path_detail[path_name] = path_info
            if demand.traffic == 0:
                break
''')],'''
model = net(PerformanceModel, [("A", "B", 10, 100)], [("A", "B", 0, "d")], [("A", "B", "l1"), ("A", "B", "l2")])
quiet(model.update_simulation)
dmd = model.get_demand_object("A", "B", "d")
assert len(dmd.path) == 2 and len(dmd.path_detail) == 2, dmd.path_detail
''','a demand without traffic that takes several LSPs in a PerformanceModel','the path detail does not list all paths')

bug('C12-node-set','C12',[(F,'''        digraph_unique_paths = [
            list(path) for path in {tuple(path) for path in digraph_all_paths}
        ]
''','''        digraph_unique_paths = list(
            {frozenset(path): path for path in digraph_all_paths}.values()
        )
''')],'''
ckts = [("A", "B", 1, 100), ("A", "C", 1, 100), ("B", "C", 1, 100), ("B", "D", 1, 100), ("C", "D", 1, 100)]
model = net(FlexModel, ckts)
quiet(model.update_simulation)
paths = [names(p) for p in model.get_all_paths_reservable_bw("A", "D")["path"]]
assert len(paths) == 4, paths
''','two paths that visit the same nodes in a different order','all-paths query returns one path of several that visit the same nodes')

bug('C22-far','C22',[(F,'''                    destinations = node_path[source_node_index + 1 :]
                    destinations.reverse()
''','''                    destinations = node_path[source_node_index + 1 :]
                    destinations.reverse()
                    destinations = destinations[:3]
''')],'''
n = "ABCDEF"
model = net(FlexModel, [(a, b, 10, 100) for a, b in zip(n, n[1:])], [("A", "F", 6, "d")], [("A", "B", "l1")])
model.get_node_object("A").igp_shortcuts_enabled = True
quiet(model.update_simulation)
lsp = model.get_rsvp_lsp("A", "B", "l1")
assert model.get_demand_object("A", "F", "d").path[0][0] is lsp
''','a shortcut LSP that ends more than three hops before the destination','the shortcut LSP is not taken')

bug('C13-lsp-name','C13',[(L,'''                for dmd_path in demand.path:
                    if self in dmd_path:
                        demand_set.add(demand)
''','''                for dmd_path in demand.path:
                    if self.lsp_name in [getattr(x, "lsp_name", None) for x in dmd_path]:
                        demand_set.add(demand)
''')],'''
model = net(FlexModel, [("A", "B", 10, 100), ("B", "C", 10, 100)], [("A", "B", 4, "d"), ("B", "C", 5, "d")], [("A", "B", "to1"), ("B", "C", "to1")])
quiet(model.update_simulation)
assert [d.traffic for d in model.get_rsvp_lsp("A", "B", "to1").demands_on_lsp(model)] == [4]
''','two LSPs of the same name between different nodes','an LSP lists the demands of another LSP')

bug('C13-orphan-failed','C13',[(M,'''        return [node for node in self.node_objects if len(node.interfaces(self)) == 0]
''','''        connected = {interface.node_object.name for interface in self.interface_objects}
        connected |= {node.name for node in self.node_objects if node.failed}
        return [node for node in self.node_objects if node.name not in connected]
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], nodes=["O"])
quiet(model.update_simulation)
quiet(model.fail_node, "O")
quiet(model.update_simulation)
assert [n.name for n in model.get_orphan_node_objects()] == ["O"]
''','a failed orphan node','a failed orphan node is not in the list of orphan nodes')

bug('C29-objects-names','C29',[(M,'''        for interface in self.interface_objects:
            pprint(interface)
            print()
''','''        for interface in {repr(i)[:60]: i for i in self.interface_objects}.values():
            pprint(interface)
            print()
''')],'''
a, b = "core-router-of-the-north-site-in-the-first-building", "core-router-of-the-south-site-in-the-first-building"
model = net(FlexModel, [(a, b, 10, 100), (a, b, 10, 100)])
quiet(model.update_simulation)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    model.display_interface_objects()
assert out.getvalue().replace("\\n", " ").count("Interface(name") == 4, out.getvalue()
''','interfaces whose names share a long prefix','display_interface_objects leaves out interfaces')

bug('C19-none-any','C19',[(M,'''                and demand.name == demand_name
            ):
''','''                and demand_name in (demand.name, "none")
            ):
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 1, "d")])
quiet(model.update_simulation)
try:
    found = model.get_demand_object("A", "B")
except ModelException:
    found = None
assert found is None, found
''','asking for a demand without a name when only named ones exist','another demand is returned')

bug('C11-srlg-prefix','C11',[(M,'''        srlg_already_in_model = [
            srlg for srlg in self.srlg_objects if srlg.name == srlg_name
        ]
''','''        srlg_already_in_model = [
            srlg
            for srlg in self.srlg_objects
            if str(srlg.name).strip() == str(srlg_name).strip()
        ]
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)])
quiet(model.update_simulation)
model.add_srlg("conduit")
model.add_srlg("conduit ")
model.get_node_object("A").add_to_srlg("conduit", model)
quiet(model.fail_srlg, "conduit")
assert model.get_node_object("A").failed
''','two SRLGs whose names differ only in blanks','SRLGs with similar names are confused')

bug('C11-remove-order','C11',[(N,'''            # Remove self from SRLG
            get_srlg.node_objects.remove(self)
            self._srlgs.remove(get_srlg)
''','''            # Remove self from SRLG
            get_srlg.node_objects.remove(self)
            self._srlgs.clear()
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)])
quiet(model.update_simulation)
a = model.get_node_object("A")
for name in ("s", "t"):
    model.add_srlg(name)
    a.add_to_srlg(name, model)
a.remove_from_srlg("s", model)
assert a in model.get_srlg_object("t").node_objects
''','a node in two SRLGs that is removed from one of them','the node leaves the other SRLG, too')

bug('C24-reserved-bool','C24',[(I,'''        if isinstance(value, float) or isinstance(value, int):
            self._reserved_bandwidth = value
''','''        if isinstance(value, str) and value.replace(".", "", 1).isdigit():
            value = float(value)
        if isinstance(value, float) or isinstance(value, int):
            self._reserved_bandwidth = value
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)])
i = iface(model, "A-B_1")
try:
    i.reserved_bandwidth = "5"
except ModelException:
    pass
else:
    raise AssertionError(i.reserved_bandwidth)
''','a numeric string as reserved bandwidth','a value that is not numeric is accepted')

bug('C24-shortcut-int','C24',[(N,'''        if isinstance(status, bool):
            self._igp_shortcuts_enabled = status
''','''        if status in (True, False):
            self._igp_shortcuts_enabled = status
''')],'''
a = Node("A")
try:
    a.igp_shortcuts_enabled = 1
except ValueError:
    pass
else:
    raise AssertionError(a.igp_shortcuts_enabled)
''','1 or 0 as IGP-shortcut flag','a flag that is not boolean is accepted')

bug('C16-dup-lsp-dest','C16',[(M,'''            if new_lsp._key not in {lsp._key for lsp in lsp_set}:
''','''            if (source, name) not in {(lsp._key[0], lsp._key[2]) for lsp in lsp_set}:
''')],'''
import tempfile
text = """INTERFACES_TABLE
h
A\\tB\\ta-b\\t1\\t10
B\\tA\\tb-a\\t1\\t10
B\\tC\\tb-c\\t1\\t10
C\\tB\\tc-b\\t1\\t10

NODES_TABLE
h

DEMANDS_TABLE
h
A\\tB\\t1\\td

RSVP_LSP_TABLE
h
A\\tB\\tl
A\\tC\\tl
"""
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "m.csv")
    open(path, "w").write(text)
    model = quiet(PerformanceModel.load_model_file, path)
assert len(model.rsvp_lsp_objects) == 2, model.rsvp_lsp_objects
''','two LSPs of the same source and name to different destinations in a file','an LSP of the file is missing')

bug('C16-node-lat','C16',[(M,'''            existing_node.lat = node_lat
            existing_node.lon = node_lon
            existing_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
''','''            existing_node.lat = node_lat or existing_node.lat
            existing_node.lon = node_lon or existing_node.lon
            existing_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
''')],'''
import tempfile
text = """INTERFACES_TABLE
h
A\\tB\\ta-b\\t1\\t10
B\\tA\\tb-a\\t1\\t10

NODES_TABLE
h
A\\t5\\t6
A\\t0\\t0

DEMANDS_TABLE
h
A\\tB\\t1\\td
"""
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "m.csv")
    open(path, "w").write(text)
    model = quiet(PerformanceModel.load_model_file, path)
a = model.get_node_object("A")
assert (a.lon, a.lat) == (0, 0), (a.lon, a.lat)
''','a node declared twice, the second time at 0','explicit coordinates of 0 do not replace earlier ones')

bug('C17-perf-comment','C17',[(M,'''        try:
            dest_node = [node for node in node_set if node.name == dest][0]
        except IndexError:
            err_msg = "No Node with name {} in Model; {}".format(dest, demand_info)
            raise ModelException(err_msg)

        traffic = int(demand_info[2])
''','''        try:
            dest_node = [node for node in node_set if node.name == dest][0]
        except IndexError:
            err_msg = "No Node with name {} in Model; {}".format(dest, demand_info)
            raise ModelException(err_msg)

        traffic = int("".join(c for c in demand_info[2] if c not in ", "))
''')],'''
import tempfile
text = """INTERFACES_TABLE
h
A\\tB\\ta-b\\t1\\t10
B\\tA\\tb-a\\t1\\t10

NODES_TABLE
h

DEMANDS_TABLE
h
A\\tB\\t1,5\\td
"""
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "m.csv")
    open(path, "w").write(text)
    try:
        model = quiet(PerformanceModel.load_model_file, path)
    except Exception:
        model = None
assert model is None, [x.traffic for x in model.demand_objects]
''','a traffic value with a decimal comma','a traffic that is not a number is misread')

bug('C27-default-demands','C27',[(M,'''        demand_iter = iter(self.demand_objects)

        for demand in demand_iter:
            print("demand._key is", demand._key)
''','''        demand_iter = iter(self.demand_objects)
        _MasterModel.displayed = self

        for demand in demand_iter:
            print("demand._key is", demand._key)
'''),(M,'''        return [
            demand
            for demand in iter(self.demand_objects)
            if demand.dest_node_object.name == dest_node_name
        ]
''','''        model = getattr(self, "displayed", self)
        if len(model.demand_objects) != len(self.demand_objects):
            model = self
        return [
            demand
            for demand in iter(model.demand_objects)
            if demand.dest_node_object.name == dest_node_name
        ]
''')],'''
one = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 1, "d")])
two = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 2, "d")])
quiet(one.update_simulation)
quiet(two.update_simulation)
quiet(one.display_demand_paths)
assert [d.traffic for d in two.get_demand_objects_dest_node("B")] == [2]
''','the demand paths of another model with as many demands were displayed before','a model lists the demands of another model')

bug('C28-norm','C28',[(M,'''        return [
            demand
            for demand in iter(self.demand_objects)
            if demand.source_node_object.name == source_node_name
        ]
''','''        found = []
        for demand in iter(self.demand_objects):
            if demand.source_node_object.name == source_node_name:
                if demand.path != "Unrouted":
                    demand.path.sort(key=len)
                found.append(demand)
        return found
''')],'''
ckts = [("A", "B", 1, 100), ("B", "C", 1, 100), ("A", "C", 2, 100), ("A", "D", 1, 100), ("D", "C", 1, 100)]
before = after = None
for seed in range(30):
    model = net(FlexModel, ckts, [("A", "C", 6, "d")])
    quiet(model.update_simulation)
    dmd = model.get_demand_object("A", "C", "d")
    dmd.path.sort(key=len, reverse=True)
    before = [names(p) for p in dmd.path]
    model.get_demand_objects_source_node("A")
    after = [names(p) for p in dmd.path]
    assert before == after, (before, after)
''','asking for the demands of a source with paths of several lengths','a query reorders the paths of demands')

bug('C20-perf-circuit-key','C20',[(P,'''        for interface in iter(self.interface_objects):
            if (
                interface.node_object.name == local_node_name
                and interface.remote_node_object.name == remote_node_name
            ):
                return interface
''','''        for interface in iter(self.interface_objects):
            if (
                interface.node_object.name.lower() == local_node_name.lower()
                and interface.remote_node_object.name.lower() == remote_node_name.lower()
            ):
                return interface
''')],'''
for i in range(20):
    model = net(PerformanceModel, [("a", "B", 10, 100), ("A", "B", 10, 100)], [("A", "B", 1, "d"), ("a", "B", 1, "e")])
    quiet(model.update_simulation)
    assert [names(p) for p in model.get_demand_object("A", "B", "d").path] == [["A-B_2"]]
    assert [names(p) for p in model.get_demand_object("a", "B", "e").path] == [["a-B_1"]]
''','node names that differ only in case','the PerformanceModel confuses nodes')

bug('C07-flex-first','C07',[(F,'''                lowest_hop_count_paths = [
                    path
                    for path in candidate_path_info_w_reservable_bw
                    if len(path) == fewest_hops
                ]
                if len(lowest_hop_count_paths) > 1:
''','''                lowest_hop_count_paths = [
                    path
                    for path in candidate_path_info_w_reservable_bw
                    if len(path) <= max(fewest_hops, 3)
                ]
                if len(lowest_hop_count_paths) > 1:
''')],'''
ckts = [("A", "B", 20, 100), ("A", "C", 10, 100), ("C", "B", 10, 100)]
for i in range(40):
    model = net(FlexModel, ckts, [], [("A", "B", "l")])
    quiet(model.update_simulation)
    assert len(model.get_rsvp_lsp("A", "B", "l").path["interfaces"]) == 1
''','paths of equal cost with a different number of hops','the LSP does not take the path with the fewest hops')

bug('C07-perf-min','C07',[(P,'''            for path in all_paths:
                if (
                    min([interface.reservable_bandwidth for interface in path])
                    >= lsp.setup_bandwidth
                ):
                    candidate_path_info_w_reservable_bw.append(path)
''','''            for path in all_paths:
                if (
                    min([interface.reservable_bandwidth for interface in path])
                    >= lsp.setup_bandwidth
                    and all(not i.get_remote_interface(self).failed for i in path)
                    and all(i.get_remote_interface(self).rsvp_enabled for i in path)
                ):
                    candidate_path_info_w_reservable_bw.append(path)
''')],'''
a, b = Node("A"), Node("B")
model = PerformanceModel(
    {Interface("ab", 1, 10, a, b, 1), Interface("ba", 1, 10, b, a, 1, False)}, {a, b}, set(), {RSVP_LSP(a, b, "l")}
)
quiet(model.validate_model)
quiet(model.update_simulation)
assert "Unrouted" not in model.get_rsvp_lsp("A", "B", "l").path
''','a circuit with only one direction RSVP enabled','an LSP is unrouted although a path exists')

bug('C08-fixed-share','C08',[(M,'''                if traffic_in_demand_group > 0:
                    traff_on_each_group_lsp = traffic_in_demand_group / len(lsps)
''','''                if traffic_in_demand_group > 0:
                    fixed = sum(
                        lsp.configured_setup_bandwidth or 0
                        for lsp in lsps
                        if len(lsps) > 2
                    )
                    traff_on_each_group_lsp = (
                        max(traffic_in_demand_group - fixed, 0) / len(lsps)
                        if fixed
                        else traffic_in_demand_group / len(lsps)
                    )
''')],'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 30, "d")], [("A", "B", "l1", 6), ("A", "B", "l2"), ("A", "B", "l3")])
quiet(model.update_simulation)
assert model.get_rsvp_lsp("A", "B", "l2").setup_bandwidth == 10, model.get_rsvp_lsp("A", "B", "l2").setup_bandwidth
''','a group of three LSPs, one of them with a configured setup bandwidth','the auto-bandwidth LSPs signal for less than their share')

bug('C09-perf-detail','C09',[(P,'''                # Create path_detail for the LSP routed demand
                demand_object._path_detail = self._lsp_routed_demand_path_detail(
                    demand_object, lsps_for_demand
                )
''','''                # Create path_detail for the LSP routed demand
                known = self.__dict__.setdefault("_lsp_details", {})
                detail_key = (demand_object, tuple(lsps_for_demand))
                if detail_key not in known:
                    known[detail_key] = self._lsp_routed_demand_path_detail(
                        demand_object, lsps_for_demand
                    )
                demand_object._path_detail = known[detail_key]
''')],'''
model = net(PerformanceModel, [("A", "B", 10, 100)], [("A", "B", 4, "d")], [("A", "B", "l")])
quiet(model.update_simulation)
dmd = model.get_demand_object("A", "B", "d")
dmd.traffic = 9
quiet(model.update_simulation)
assert dmd.path_detail["path_0"]["path_traffic"] == 9, dmd.path_detail
''','the traffic of a demand on LSPs changes between two updates','the path detail is that of an earlier simulation')

bug('C01-flex-graph','C01',[(F,'''                min_weight = min(d["cost"] for d in values_source_hop)
''','''                min_weight = min(d["cost"] for d in list(values_source_hop)[-8:])
''')],'''
ckts = [("A", "B", 1, 100)] + [("A", "B", 5, 100)] * 9
for i in range(20):
    model = net(FlexModel, ckts, [("A", "B", 1, "d")])
    quiet(model.update_simulation)
    assert [names(p) for p in model.get_demand_object("A", "B", "d").path] == [["A-B_1"]]
''','more than eight parallel circuits','a demand takes circuits that are not of the least cost')

WM = """
from pyNTM.weathermap import WeatherMap


def callback(model, output):
    wm = WeatherMap(model)
    wm.app.run = lambda *a, **k: None
    quiet(wm.create_weathermap)
    found = [v for k, v in wm.app.callback_map.items() if output in k]
    return wm.app, found[0]


def ask(model, output, inputs):
    wm = WeatherMap(model)
    wm.app.run = lambda *a, **k: None
    quiet(wm.create_weathermap)
    client = wm.app.server.test_client()
    o, p = output.split(".")
    body = {
        "output": output,
        "outputs": {"id": o, "property": p},
        "inputs": [{"id": i.split(".")[0], "property": i.split(".")[1], "value": v} for i, v in inputs],
        "changedPropIds": [i for i, v in inputs if v is not None],
    }
    answer = client.post("/_dash-update-component", json=body)
    assert answer.status_code == 200, (answer.status_code, answer.data[:500])
    return answer.get_json()["response"][o][p]


import json
"""

bug('C25-lsps-reserved','C25',[(W,'''                lsps = interface.lsps(model)
                if len(lsps) == 0:
''','''                lsps = [x for x in interface.lsps(model) if x.reserved_bandwidth]
                if len(lsps) == 0:
''')],WM+'''
model = net(FlexModel, [("A", "B", 10, 100)], [], [("A", "B", "l")])
quiet(model.update_simulation)
info = json.dumps({"source": "A", "interface-name": "A-B_1", "dest": "B", "circuit_id": 1})
got = ask(model, "interface-lsp-callback.options", [("selected-interface-output.children", info)])
assert any("lsp_name" in x["label"] for x in got), got
''','an LSP without demands','the LSP is not listed on its interfaces')

bug('C25-lsp-zero','C25',[(W,'''                if lsp_object.path == "Unrouted":
                    lsp_info["routed"] = False
''','''                if not lsp_object.demands_on_lsp(model):
                    lsp_info["routed"] = False
''')],WM+'''
model = net(FlexModel, [("A", "B", 10, 100)], [], [("A", "B", "l")])
quiet(model.update_simulation)
info = json.dumps({"source": "A", "dest": "B", "name": "l"})
got = ask(model, "selected-lsp-output.children", [("demand-path-lsps.value", None), ("find-lsps-callback.value", info), ("interface-lsp-callback.value", None), ("clear-lsp-button.n_clicks", None)])
assert json.loads(got)["routed"] is True, got
''','an LSP without demands is selected','a routed LSP is shown as not routed')

bug('C25-dmd-zero','C25',[(W,'''                if demand_object.path == "Unrouted":
                    demand_info["routed"] = False
''','''                if demand_object.path == "Unrouted" or not demand_object.traffic:
                    demand_info["routed"] = False
''')],WM+'''
model = net(FlexModel, [("A", "B", 10, 100)], [("A", "B", 0, "d")])
quiet(model.update_simulation)
info = json.dumps({"source": "A", "dest": "B", "name": "d"})
got = ask(model, "selected-demand-output.children", [("interface-demand-callback.value", None), ("find-demands-callback.value", info), ("lsp-demand-callback.value", None), ("clear-dmd-button.n_clicks", None)])
assert json.loads(got)["routed"] is True, got
''','a demand without traffic is selected','a routed demand is shown as not routed')
