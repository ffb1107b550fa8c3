"""Builds models of the code under test from specs, applies operations to them, and reads their
state through the public API."""
import os
import random
import tempfile

from . import env
from .core import Discard, Violation
from .gen import near
from .net import CLEAN, VALIDATING, Edge, Inapplicable, Net, Refused


def api():
    return env.MOD


def model_class(name):
    m = api()
    return {"flex": m.FlexModel, "perf": m.PerformanceModel, "legacy_flex": m.Parallel_Link_Model, "legacy_perf": m.Model}[name]


def given_ids(c, how):
    """The circuit ids the interfaces of c come with; a PerformanceModel assigns its own"""
    if not how:
        return c["id"], c["id"]
    if how == "dup":
        return 7, 7
    if how == "mix":
        ids = [None, 1, 2, 3, "x", "1", 40]
        return ids[len(c["k"] + c["na"]) % 7], ids[(len(c["nb"]) + 3 * c["ca"]) % 7]
    return None, None


def made(cls, required, optional, defaults):
    """cls(...), without the trailing arguments that have their default"""
    optional = list(optional)
    while optional and type(optional[-1]) is type(defaults[len(optional) - 1]) and optional[-1] == defaults[len(optional) - 1]:
        optional.pop()
    return cls(*required, *optional)


def make_interfaces(c, nodes, perf_ids=None):
    m = api()
    ida, idb = given_ids(c, perf_ids)
    default = (None, True, 100)
    ia = made(m.Interface, (c["na"], c["ca"], c["cap"], nodes[c["a"]], nodes[c["b"]]), (ida, c["ra"], c["pa"]), default)
    ib = made(m.Interface, (c["nb"], c["cb"], c["cap"], nodes[c["b"]], nodes[c["a"]]), (idb, c["rb"], c["pb"]), default)
    return ia, ib


def build_objects(net, cls, order=None, perf_ids=None):
    """A model built through the constructors; order (a random.Random) shuffles the creation"""
    m = api()

    def seq(x):
        x = list(x)
        if order is not None:
            order.shuffle(x)
        return x

    nodes = {}
    for n in seq(net.nodes):
        d = net.nodes[n]
        nodes[n] = made(m.Node, (n,), (d["lat"], d["lon"]), (0, 0))
        if d["sc"]:
            nodes[n].igp_shortcuts_enabled = True
    ifs = []
    for k in seq(net.cks):
        ifs += make_interfaces(net.cks[k], nodes, perf_ids)
    dmds = [made(m.Demand, (nodes[s], nodes[d]), (net.demands[(s, d, n)], n), (0, "none")) for s, d, n in seq(net.demands)]
    lsps = []
    for s, d, n in seq(net.lsps):
        x = net.lsps[(s, d, n)]
        lsps.append(made(m.RSVP_LSP, (nodes[s], nodes[d]), (n, x["bw"], x["mm"]), ("none", None, None)))
    model = model_class(cls)(set(seq(ifs)), set(seq(nodes.values())), set(dmds), set(lsps))
    return model


def file_text(net, perf, style=None):
    """The model file that describes net (without failures and SRLGs)"""
    s = style or {}
    ident = "" if perf else "\tcircuit_id"
    L = ["INTERFACES_TABLE", "node_object_name\tremote_node_object_name\tname\tcost\tcapacity%s\trsvp_enabled\tpercent_reservable_bandwidth" % ident]
    for c in net.cks.values():
        for x, y, n, co, r, p in ((c["a"], c["b"], c["na"], c["ca"], c["ra"], c["pa"]), (c["b"], c["a"], c["nb"], c["cb"], c["rb"], c["pb"])):
            row = [x, y, n, str(co), str(c["cap"])] + ([] if perf else [str(c["id"])]) + [str(bool(r)), str(p)]
            L.append("\t".join(row))
    L += ["", "NODES_TABLE", "name\tlon\tlat\tigp_shortcuts_enabled(default=False)"]
    for n, d in net.nodes.items():
        L.append("\t".join([n, str(d["lon"]), str(d["lat"])] + ([str(bool(d["sc"]))] if d["sc"] else [])))
    L += ["", "DEMANDS_TABLE", "source\tdest\ttraffic\tname"]
    for (a, b, n), t in net.demands.items():
        L.append("\t".join([a, b, str(t), n]))
    if net.lsps or s.get("lsp_table", True):
        L += ["", "RSVP_LSP_TABLE", "source\tdest\tname\tconfigured_setup_bw\tmanual_metric"]
        for (a, b, n), x in net.lsps.items():
            L.append("\t".join([a, b, n, "" if x["bw"] is None else str(x["bw"]), "" if x["mm"] is None else str(x["mm"])]))
    return s.get("eol", "\n").join(L) + s.get("eol", "\n")


def load_text(cls, text, bom=False):
    """Loads a model file with this text"""
    fd, path = tempfile.mkstemp(prefix="verif-", suffix=".csv")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write((b"\xef\xbb\xbf" if bom else b"") + text.encode("utf-8"))
        return model_class(cls).load_model_file(path)
    finally:
        os.unlink(path)


EDITS = ("set_cost", "set_cap", "set_rsvp", "set_pct", "set_sc", "set_mm", "set_bw", "set_traffic", "set_lat", "set_lon", "rm_demand", "rm_lsp", "update")


# What leaves the reservations of the last simulation consistent: validation may follow without an update
SAFE = EDITS[:2] + (
    "set_rsvp", "set_pct", "set_mm", "set_bw", "set_traffic", "rm_demand", "add_demand", "add_lsp", "rename_if",
    "add_node", "add_ck", "add_list", "add_srlg", "srlg_add_node", "srlg_add_if", "srlg_new_node", "srlg_new_if",
    "srlg_unknown", "add_ck_unknown", "unknown",
)
SAFE = tuple(x for x in SAFE if x != "set_cap")


class World:
    """A model together with the reference description it is meant to follow"""

    def __init__(self, spec, strict=False, cls=None, order=None, auto=True):
        self.spec = spec
        self.strict = strict
        self.auto = auto
        self.net = Net.from_spec(spec)
        self.cls = cls or spec["cls"]
        self.model = build_objects(self.net, self.cls, order, spec.get("idnone") if self.net.perf else None)
        self.dirty = True
        self.updated = False
        self.unsafe = self.net.perf
        self.applied = []
        if self.net.srlgs:
            self.update()  # PerformanceModel circuit ids exist after an update
            for n, s in self.net.srlgs.items():
                self.model.add_srlg(n)
                for x in sorted(s["nodes"]):
                    self.model.get_node_object(x).add_to_srlg(n, self.model)
                sides = {k: side for k, side in next(g["cks"] for g in spec["srlgs"] if g["n"] == n)}
                for k, side in sorted(sides.items()):
                    self.iface(k, side).add_to_srlg(n, self.model)

    # -- access

    def iface(self, k, side):
        node, name = self.net.if_key(k, side)
        return self.model.get_interface_object(name, node)

    def look(self, share=0.65):
        """Whether to look at the model now: what is not looked at after every operation can be stale at the next look"""
        return random.Random("%s/%s" % (self.spec["salt"], len(self.applied))).random() < share

    def start(self, spec):
        """The first update, unless the history is to begin on a model that was never updated.
        Returns True if the model is updated."""
        if spec.get("early") and spec["ops"]:
            return self.updated
        self.update()
        return True

    def update(self):
        self.model.update_simulation()
        self.dirty = False
        self.updated = True
        self.unsafe = False

    def apply(self, op):
        """Applies op to the model and to the description. Returns False if it does not apply."""
        before = self.net.copy() if op[0] not in CLEAN else self.net
        refused = False
        try:
            self.net.do(op)
        except Inapplicable:
            self.net = before
            return False
        except Refused:
            refused = True
        after, self.net = self.net, before
        if self.auto and op[0] in VALIDATING and self.unsafe:
            self.update()
        elif not self.updated and self.net.perf and op[0] not in EDITS:
            self.update()  # the circuits of a PerformanceModel exist after its first update
        raised = None
        try:
            self.call(op, before)
        except api().ModelException as e:
            raised = e
            if op[0] in CLEAN:
                raise
        self.net = after
        if op[0] not in CLEAN:
            self.dirty = True
            if op[0] not in SAFE and (before.lsps or after.lsps):
                self.unsafe = True
        self.applied.append(op)
        if (raised is not None) != refused:
            if not self.strict:
                raise Discard()
            if refused:
                raise Violation("%s was accepted although it has to be refused" % (op,), "accepted " + op[0])
            raise Violation("%s was refused: %s" % (op, str(raised)[:200]), "refused " + op[0])
        return True

    def call(self, op, net):
        m = self.model
        kind = op[0]
        if kind == "update":
            self.update()
        elif kind == "validate":
            m.validate_model()
        elif kind == "query":
            m.get_shortest_path(op[1], op[2], op[3])
            m.get_all_paths_reservable_bw(op[1], op[2], False, 5, op[3])
            repr(m)
        elif kind == "fail_if":
            i = self.iface(op[1], op[2])
            if op[3] == "iface":
                i.fail_interface(m)
            else:
                m.fail_interface(i.name, i.node_object.name)
        elif kind == "unfail_if":
            i = self.iface(op[1], op[2])
            if op[3] == "iface":
                i.unfail_interface(m)
            elif op[3] == "raise":
                m.unfail_interface(i.name, i.node_object.name, True)
            else:
                m.unfail_interface(i.name, i.node_object.name)
        elif kind == "fail_node":
            m.fail_node(op[1])
        elif kind == "unfail_node":
            m.unfail_node(op[1])
        elif kind == "fail_srlg":
            m.fail_srlg(op[1])
        elif kind == "unfail_srlg":
            m.unfail_srlg(op[1])
        elif kind == "srlg_add_node":
            m.get_node_object(op[2]).add_to_srlg(op[1], m)
        elif kind == "srlg_rm_node":
            m.get_node_object(op[2]).remove_from_srlg(op[1], m)
        elif kind == "srlg_add_if":
            self.iface(op[2], op[3]).add_to_srlg(op[1], m)
        elif kind == "srlg_rm_if":
            self.iface(op[2], op[3]).remove_from_srlg(op[1], m)
        elif kind == "add_srlg":
            m.add_srlg(op[1])
        elif kind == "srlg_new_node":
            m.get_node_object(op[2]).add_to_srlg(op[1], m, create_if_not_present=True)
        elif kind == "srlg_new_if":
            self.iface(op[2], op[3]).add_to_srlg(op[1], m, create_if_not_present=True)
        elif kind == "srlg_unknown":
            known = sorted(net.srlgs)
            x = near(known[0], op[5]) if known else "no such SRLG"
            while x in known:
                x += "~"
            if m.get_srlg_object(x, raise_exception=False) is not None:
                raise Violation("get_srlg_object returns something for an unknown SRLG")
            node, i = m.get_node_object(op[2]), self.iface(op[3], op[4])
            {
                "add_node": lambda: node.add_to_srlg(x, m),
                "add_if": lambda: i.add_to_srlg(x, m),
                "rm_node": lambda: node.remove_from_srlg(x, m),
                "rm_if": lambda: i.remove_from_srlg(x, m),
                "fail": lambda: m.fail_srlg(x),
                "unfail": lambda: m.unfail_srlg(x),
                "get": lambda: m.get_srlg_object(x),
            }[op[1]]()
        elif kind == "add_demand":
            args = [op[1], op[2], op[4], op[3]]
            if args[3] == "none":  # what has its default is left out
                args.pop()
                if args[2] == 0:
                    args.pop()
            m.add_demand(*args)
        elif kind == "rm_demand":
            m.demand_objects.remove(m.get_demand_object(op[1], op[2], op[3]))
        elif kind == "set_traffic":
            m.get_demand_object(op[1], op[2], op[3]).traffic = op[4]
        elif kind == "add_lsp":
            m.add_rsvp_lsp(op[1], op[2], op[3])
        elif kind == "rm_lsp":
            m.rsvp_lsp_objects.remove(m.get_rsvp_lsp(op[1], op[2], op[3]))
        elif kind == "set_mm":
            m.get_rsvp_lsp(op[1], op[2], op[3]).manual_metric = op[4]
        elif kind == "set_bw":
            m.get_rsvp_lsp(op[1], op[2], op[3]).configured_setup_bandwidth = op[4]
        elif kind == "set_cost":
            self.iface(op[1], op[2]).cost = op[3]
        elif kind == "set_cap":
            a, b = self.iface(op[1], "a"), self.iface(op[1], "b")
            a.capacity = op[2]
            b.capacity = op[2]
        elif kind == "set_rsvp":
            self.iface(op[1], op[2]).rsvp_enabled = op[3]
        elif kind == "set_pct":
            self.iface(op[1], op[2]).percent_reservable_bandwidth = op[3]
        elif kind == "rename_if":
            i = self.iface(op[1], op[2])
            m.change_interface_name(i.node_object.name, i.name, op[3])
        elif kind == "add_node":
            m.add_node(api().Node(op[1]["n"], op[1].get("lat", 0), op[1].get("lon", 0)))
        elif kind == "set_sc":
            m.get_node_object(op[1]).igp_shortcuts_enabled = op[2]
        elif kind == "add_list":
            rows = []
            for x in op[1]:
                for a, b, n, c in ((x["a"], x["b"], x["na"], x["ca"]), (x["b"], x["a"], x["nb"], x["cb"])):
                    row = {"name": n, "cost": c, "capacity": x["cap"], "node": a, "remote_node": b, "circuit_id": x["id"]}
                    if "failed" in x:
                        row["failed"] = x["failed"]
                    rows.append(row)
            m.add_network_interfaces_from_list(rows)
        elif kind == "add_ck_unknown":
            x = op[1]
            ends = [m.get_node_object(x["a"]), api().Node("no such node")]
            if op[2] == "b":
                ends.reverse()
            m.add_circuit(ends[0], ends[1], x["na"], x["nb"], x["ca"], x["cb"], x["cap"], False, x["id"])
        elif kind == "unknown":
            n = op[2]
            x, dmd, lsp = self.misses(net, n, op[1], op[3])
            {
                "node": lambda: m.get_node_object(x),
                "if": lambda: m.get_interface_object(x, n),
                "if node": lambda: m.get_interface_object(x, x),
                "ckt": lambda: m.get_circuit_object_from_interface(x, n),
                "demand": lambda: m.get_demand_object(*dmd),
                "lsp": lambda: m.get_rsvp_lsp(*lsp),
                "rename": lambda: m.change_interface_name(n, x, "y"),
                "fail_if": lambda: m.fail_interface(x, n),
                "unfail_if": lambda: m.unfail_interface(x, n),
                "add_demand s": lambda: m.add_demand(x, n, 5),
                "add_demand d": lambda: m.add_demand(n, x, 5, "q"),
                "add_lsp s": lambda: m.add_rsvp_lsp(x, n, "q"),
                "add_lsp d": lambda: m.add_rsvp_lsp(n, x, "q"),
                "unfail_node": lambda: m.unfail_node(x),
                "fail_node": lambda: m.fail_node(x),
            }[op[1]]()
        elif kind == "add_ck":
            x = op[1]
            cid = x["id"]
            if x.get("short"):
                m.add_circuit(m.get_node_object(x["a"]), m.get_node_object(x["b"]), x["na"], x["nb"], circuit_id=cid)
                return
            m.add_circuit(
                m.get_node_object(x["a"]), m.get_node_object(x["b"]), x["na"], x["nb"], x["ca"], x["cb"], x["cap"],
                bool(x.get("failed")), cid,
            )
        else:
            raise AssertionError(kind)

    def misses(self, net, n, what, how):
        """a name no element has, like the name of one if there is one; the same for a demand and an LSP"""
        if what in ("if", "ckt", "rename", "fail_if", "unfail_if"):
            have = sorted(k[1] for k in net.edges() if k[0] == n)
        else:
            have = sorted(net.nodes)
        x = near(have[0] if what in ("if", "ckt", "rename", "fail_if", "unfail_if") else n, how) if have else "no such element"
        while x in have or x in net.nodes:
            x += "~"
        keys = []
        for table in (net.demands, net.lsps):
            k = (n, n, "no such element")
            for s, d, name in sorted(table):
                c = [(s, d, near(name, how)), (near(s, how), d, name), (s, near(d, how), name)][len(name + s + d) % 3]
                if c not in table:
                    k = c
                    break
            keys.append(k)
        return x, keys[0], keys[1]


# ------------------------------------------------------------------ reading the state


def is_if(x):
    return isinstance(x, api().Interface)


def is_lsp(x):
    return isinstance(x, api().RSVP_LSP)


def ikey(i):
    return (i.node_object.name, i.name)


def okey(x):
    """the key of an interface, circuit, demand or LSP"""
    if hasattr(x, "interface_a"):
        return (ikey(x.interface_a), ikey(x.interface_b))
    if hasattr(x, "circuit_id"):
        return ikey(x)
    return (x.source_node_object.name, x.dest_node_object.name, x.lsp_name if hasattr(x, "lsp_name") else x.name)


def item_key(x):
    if is_if(x):
        return ("I",) + ikey(x)
    if is_lsp(x):
        return ("L",) + okey(x)
    raise Violation("a path contains %r, which is neither an Interface nor an RSVP_LSP" % (x,), "path item")


def unrouted(lsp):
    return not isinstance(lsp.path, dict)


def lsp_edges(lsp):
    return [ikey(i) for i in lsp.path["interfaces"]]


def observed_net(model):
    """Net-like view of the configuration the model has now: edges and nodes"""
    edges = {}
    for i in model.interface_objects:
        k = ikey(i)
        edges[k] = Edge(
            k, i.node_object.name, i.remote_node_object.name, i.name, i.cost, i.capacity, i.rsvp_enabled is True,
            i.percent_reservable_bandwidth, not i.failed, i.reservable_bandwidth,
        )
    nodes = [n.name for n in model.node_objects]
    return nodes, edges


def dmd_paths(d):
    """The demand's paths as a list of tuples of item keys; None if unrouted"""
    if d.path == "Unrouted":
        return None
    if not isinstance(d.path, list):
        raise Violation("the path of %r is %r" % (d, d.path), "demand path")
    return [tuple(item_key(x) for x in p) for p in d.path]


def detail_items(d, entry):
    for k in ("items", "interfaces"):
        if k in entry:
            return entry[k]
    raise Violation("a path_detail entry of %r lists no items: %r" % (d, sorted(entry)), "path_detail")


def detail(d):
    """path_detail in canonical form: None if unrouted, else {path: (traffic, {item: splits})}"""
    pd = d.path_detail
    if not isinstance(pd, dict):
        return pd
    out = []
    for e in pd.values():
        items = tuple(item_key(x) for x in detail_items(d, e))
        sp = {item_key(x): v for x, v in e["splits"].items()} if "splits" in e else None
        out.append((items, e["path_traffic"], sp))
    return sorted(out, key=repr)


def num(x):
    """numbers in a form that compares modulo floating point noise"""
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return round(float(x), 4) + 0.0
    return x


def results(model, lsps=True):
    """All results of a simulation, in canonical form"""
    r = {"ifs": {}, "dmds": {}, "lsps": {}, "nodes": {}}
    for n in model.node_objects:
        r["nodes"][n.name] = n.failed
    for i in model.interface_objects:
        r["ifs"][ikey(i)] = (i.failed, num(i.traffic), num(i.utilization), num(i.reserved_bandwidth), num(i.reservable_bandwidth))
    for d in model.demand_objects:
        p = dmd_paths(d)
        r["dmds"][okey(d)] = (None if p is None else sorted(p), num_detail(detail(d)))
    for x in model.rsvp_lsp_objects:
        if unrouted(x):
            r["lsps"][okey(x)] = (x.path, x.reserved_bandwidth, num(x.setup_bandwidth))
        else:
            r["lsps"][okey(x)] = (
                tuple(lsp_edges(x)), num(x.path["path_cost"]), num(x.path["baseline_path_reservable_bw"]),
                num(x.reserved_bandwidth), num(x.setup_bandwidth),
            )
    return r


def num_detail(d):
    if not isinstance(d, list):
        return d
    return [(i, num(t), None if s is None else sorted(s.items())) for i, t, s in d]


def config(model):
    """The whole configuration and failure state of a model, in canonical form"""
    c = {"ifs": {}, "nodes": {}, "dmds": {}, "lsps": {}, "srlgs": {}}
    for i in model.interface_objects:
        c["ifs"][ikey(i)] = (
            i.remote_node_object.name, i.cost, i.capacity, i.circuit_id, i.rsvp_enabled, i.percent_reservable_bandwidth,
            i.failed, tuple(sorted(s.name for s in i.srlgs)),
        )
    for n in model.node_objects:
        c["nodes"][n.name] = (n.lat, n.lon, n.igp_shortcuts_enabled, n.failed, tuple(sorted(s.name for s in n.srlgs)))
    for d in model.demand_objects:
        c["dmds"][okey(d)] = d.traffic
    for x in model.rsvp_lsp_objects:
        c["lsps"][okey(x)] = (x.configured_setup_bandwidth, x.manual_metric)
    for s in model.srlg_objects:
        c["srlgs"][s.name] = (s.failed, tuple(sorted(n.name for n in s.node_objects)), tuple(sorted(ikey(i) for i in s.interface_objects)))
    c["sizes"] = (len(model.interface_objects), len(model.node_objects), len(model.demand_objects), len(model.rsvp_lsp_objects))
    return c


def expected_config(net, ids=True):
    """What config() has to be for net (circuit ids left out if not ids)"""
    c = {"ifs": {}, "nodes": {}, "dmds": dict(net.demands), "lsps": {}, "srlgs": {}}
    for k, x in net.cks.items():
        sr = tuple(sorted(n for n, s in net.srlgs.items() if k in s["cks"]))
        c["ifs"][(x["a"], x["na"])] = (x["b"], x["ca"], x["cap"], x["id"], x["ra"], x["pa"], x["failed"], sr)
        c["ifs"][(x["b"], x["nb"])] = (x["a"], x["cb"], x["cap"], x["id"], x["rb"], x["pb"], x["failed"], sr)
    for n, x in net.nodes.items():
        c["nodes"][n] = (x["lat"], x["lon"], x["sc"], x["failed"], tuple(sorted(g for g, s in net.srlgs.items() if n in s["nodes"])))
    for k, x in net.lsps.items():
        c["lsps"][k] = (x["bw"], x["mm"] if x["mm"] is not None else "not set")
    for n, s in net.srlgs.items():
        ifs = []
        for k in s["cks"]:
            ifs += [net.if_key(k, "a"), net.if_key(k, "b")]
        c["srlgs"][n] = (s["failed"], tuple(sorted(s["nodes"])), tuple(sorted(ifs)))
    c["sizes"] = (2 * len(net.cks), len(net.nodes), len(net.demands), len(net.lsps))
    return c


def diff(a, b, path=""):
    """First difference of two canonical values, as text; None if equal"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a:
                return "%s%r: missing, expected %r" % (path, k, b[k])
            if k not in b:
                return "%s%r: unexpected %r" % (path, k, a[k])
            d = diff(a[k], b[k], "%s%r: " % (path, k))
            if d:
                return d
        return None
    return None if a == b else "%s%r, expected %r" % (path, a, b)


def drop_ids(c):
    c = dict(c)
    c["ifs"] = {k: v[:3] + v[4:] for k, v in c["ifs"].items()}
    return c
