"""Path queries, derived views, differential and metamorphic relations: C12, C13, C20, C21"""
import random

from .. import gen
from ..core import Discard, Prop, Violation
from ..net import CLEAN, VALIDATING, Net
from ..ref import Graph, r1
from ..world import (
    okey, World, api, build_objects, detail, diff, dmd_paths, ikey, item_key, lsp_edges, model_class, results, unrouted,
)
from .base import StateProp, View, close, igp_part, lsps_deterministic, no_baseline
from .state import tame


def keyed(paths, what, ctx):
    out = [tuple(ikey(i) for i in p) for p in paths]
    ctx.check(len(out) == len(set(out)), "%s: a path is returned more than once: %s", what, sorted(out)[:6])
    return set(out)


def enough(x, bw):
    if bw <= 0 or x == bw:
        return True
    if abs(x - bw) < 1e-6:
        raise Discard()
    return x > bw


class C12(StateProp):
    id = "C12"
    rule = (
        "simulated networks with reservations, partially RSVP-enabled and failed circuits; queries over node pairs, needed "
        "bandwidths (including the exact bandwidths left on interfaces), cutoffs and failed circuits; non-trivial: a query "
        "with a positive bandwidth excludes some interface, or there are several paths"
    )
    opts = dict(lsps=0.7, contention=0.5, rsvp_off=0.4, pct=0.4, demands=(0, 5), nodes=(2, 7), big=0.0)
    cases = {"quick": 24000, "thorough": 500000}

    def check_state(self, w, v, ctx):
        m = v.model
        rng = random.Random(w.spec["salt"] + len(w.applied))
        names = sorted(v.nodes)
        left = sorted({e.reservable for e in v.edges.values() if e.reservable > 0})
        for _ in range(5):
            if len(names) < 2:
                return
            a, b = rng.sample(names, 2)
            bw = rng.choice([0, 0, 1, 5, 10, 20] + ([rng.choice(left)] * 4 + [rng.choice(left) + 0.1] if left else []))
            if rng.random() < 0.05:
                bw = rng.choice([0.1, 33.3, 10000])

            def use(e, up=True):
                return (e.up or not up) and enough(e.reservable, bw)

            g = Graph(v.nodes, v.edges, use=use)
            got = m.get_shortest_path(a, b, bw) if bw or rng.random() < 0.5 else m.get_shortest_path(a, b)
            exp = g.paths(a, b)
            paths = keyed(got["path"], "shortest paths %s-%s with %s" % (a, b, bw), ctx)
            d = diff({"p": sorted(paths)}, {"p": sorted(exp)})
            ctx.check(d is None, "shortest paths from %s to %s with %s: %s", a, b, bw, d)
            ctx.check(got["cost"] == g.cost(a, b), "cost from %s to %s with %s is %r, expected %r", a, b, bw, got["cost"], g.cost(a, b))
            ctx.interesting(len(exp) > 1 or (bw > 0 and any(e.up and not use(e) for e in v.edges.values())))
            ctx.tag("found" if exp else "none")
            inc = rng.random() < 0.5
            cut = rng.choice([1, 2, 3, 4, 5, 10])
            g = Graph(v.nodes, v.edges, use=lambda e: use(e, not inc))
            try:
                exp = g.simple_paths(a, b, cut, 1500)
            except Discard:
                continue
            if inc and cut == 10 and bw == 0:
                got = m.get_all_paths_reservable_bw(a, b)
                ctx.tag("defaults")
            else:
                got = m.get_all_paths_reservable_bw(a, b, inc, cut, bw)
            paths = keyed(got["path"], "all paths %s-%s with %s" % (a, b, bw), ctx)
            d = diff({"p": sorted(paths)}, {"p": sorted(exp)})
            ctx.check(d is None, "all paths from %s to %s (failed circuits: %s, cutoff %s, bandwidth %s): %s", a, b, inc, cut, bw, d)
        self.routed_lsps(w, v, ctx, rng)

    def routed_lsps(self, w, v, ctx, rng):
        """the shortest-path query of a routed LSP"""
        m = v.model
        for k in sorted(v.lsps)[:4]:
            x = v.lsps[k]
            if unrouted(x):
                continue
            own = set(v.lsp_path(k))
            room = sorted({e.reservable + (r1(x.reserved_bandwidth) if i in own else 0) for i, e in v.edges.items() if e.rsvp})
            bw = rng.choice([0, 5, 10, x.reserved_bandwidth, x.reserved_bandwidth * 2] + ([rng.choice(room)] if room else []))

            def use(e):
                left = r1(e.reservable + (r1(x.reserved_bandwidth) if e.id in own else 0))
                if left == bw:
                    return e.up and e.rsvp
                if abs(left - bw) < 1e-6:
                    raise Discard()
                return e.up and e.rsvp and left > bw

            g = Graph(v.nodes, v.edges, use=use)
            got = m.get_shortest_path_for_routed_lsp(k[0], k[1], x, bw)
            paths = keyed(got["path"], "paths for LSP %s" % (k,), ctx)
            d = diff({"p": sorted(paths)}, {"p": sorted(g.paths(k[0], k[1]))})
            ctx.check(d is None, "paths for the routed LSP %s with %s: %s", k, bw, d)
            ctx.check(got["cost"] == g.cost(k[0], k[1]), "cost for the routed LSP %s with %s is %r, expected %r", k, bw, got["cost"], g.cost(k[0], k[1]))
            ctx.tag("routed LSP")


class C13(StateProp):
    id = "C13"
    rule = (
        "simulated networks with demands on the IGP, on LSPs and on IGP shortcuts; every derived view is recomputed from "
        "the paths; non-trivial: an interface carries demands directly and through LSPs, or two demands or LSPs share endpoints"
    )
    opts = dict(lsps=0.7, shortcuts=0.35, demands=(0, 8), contention=0.4, focus_pairs=0.7, mm=0.3)
    shortcut_lsps = 0.3
    cases = {"quick": 28000, "thorough": 600000}

    def check_state(self, w, v, ctx):
        m = v.model
        on_if, on_lsp, lsps_on, load = {i: set() for i in v.ifs}, {k: set() for k in v.lsps}, {i: set() for i in v.ifs}, {k: 0.0 for k in v.lsps}
        for k in v.lsps:
            if not unrouted(v.lsps[k]):
                for e in v.lsp_path(k):
                    lsps_on[e].add(k)
        riding, direct = set(), {i: set() for i in v.ifs}
        for d in v.demands:
            key = okey(d)
            for p in dmd_paths(d) or []:
                for x in p:
                    if x[0] == "I":
                        on_if[x[1:]].add(key)
                        direct[x[1:]].add(key)
                    else:
                        riding.add(key)
                        on_lsp[x[1:]].add(key)
                        for e in v.lsp_path(x[1:]):
                            on_if[e].add(key)
            det = detail(d)
            if isinstance(det, list):
                for items, t, _ in det:
                    for x in items:
                        if x[0] == "L":
                            load[x[1:]] += t

        def names(xs, what):
            out = [okey(x) for x in xs]
            ctx.check(len(out) == len(set(out)), "%s lists an element twice: %s", what, out)
            return set(out)

        for i, f in sorted(v.ifs.items()):
            got = names(f.demands(m), "demands() of %s" % (i,))
            ctx.check(got == on_if[i], "interface %s: demands() %s, their paths say %s", i, sorted(got), sorted(on_if[i]))
            got = names(f.lsps(m), "lsps() of %s" % (i,))
            ctx.check(got == lsps_on[i], "interface %s: lsps() %s, their paths say %s", i, sorted(got), sorted(lsps_on[i]))
            ctx.interesting(bool(direct[i]) and direct[i] != on_if[i])
        n = len(v.demands) + 1
        for k, x in sorted(v.lsps.items()):
            got = names(x.demands_on_lsp(m), "demands_on_lsp() of %s" % (k,))
            ctx.check(got == on_lsp[k], "LSP %s: demands_on_lsp() %s, the paths say %s", k, sorted(got), sorted(on_lsp[k]))
            t = x.traffic_on_lsp(m)
            if unrouted(x):
                ctx.check(t == 0, "the unrouted LSP %s carries %r", k, t)
            ctx.check(close(t, load[k], 1e-3 * n + 1e-6 * load[k]), "LSP %s: traffic_on_lsp() %r, the paths through it carry %r", k, t, load[k])
            ctx.tag("LSP with traffic" if load[k] else "LSP without traffic")
        self.views(w, v, riding, on_lsp, ctx)

    def views(self, w, v, riding, on_lsp, ctx):
        m = v.model
        keys = {okey(d) for d in v.demands}
        unr = {okey(d) for d in v.demands if dmd_paths(d) is None}
        got = [okey(d) for d in m.get_unrouted_demand_objects()]
        ctx.check(sorted(got) == sorted(unr), "unrouted demands are listed as %s, expected %s", got, sorted(unr))
        dead = {k for k, x in v.lsps.items() if unrouted(x)}
        used = {k for k in v.lsps if on_lsp[k]}
        s = m.simulation_diagnostics()
        exp = {
            "Number of routed LSPs carrying Demands": len(used), "Number of routed LSPs with no Demands": len(v.lsps) - len(used) - len(dead),
            "Number of Demands riding LSPs": len(riding), "Number of Demands not riding LSPs": len(keys) - len(riding),
            "Number of unrouted LSPs": len(dead), "Number of unrouted Demands": len(unr),
        }
        for k, x in exp.items():
            ctx.check(s[k] == x, "simulation diagnostics: %s is %r, expected %r", k, s[k], x)
        for k, x in (
            ("routed LSPs with no demands generator", set(v.lsps) - used - dead),
            ("routed LSPs with demands generator", used),
            ("demands riding LSPs generator", riding),
        ):
            got = sorted(okey(y) for y in s[k])
            ctx.check(got == sorted(x), "simulation diagnostics: %s gives %s, expected %s", k, got, sorted(x))
        for n in m.node_objects:
            got = sorted(okey(d) for d in m.get_demand_objects_source_node(n.name))
            ctx.check(got == sorted(k for k in keys if k[0] == n.name), "demands from %s: %s", n.name, got)
            got = sorted(okey(d) for d in m.get_demand_objects_dest_node(n.name))
            ctx.check(got == sorted(k for k in keys if k[1] == n.name), "demands to %s: %s", n.name, got)
            mine = sorted(i for i in v.ifs if i[0] == n.name)
            for f in (lambda: n.interfaces(m), lambda: m.get_node_interfaces(n.name)):
                got = sorted(ikey(i) for i in f())
                ctx.check(got == mine, "interfaces of %s: %s, expected %s", n.name, got, mine)
            adj = sorted({v.edges[i].v for i in mine})
            got = sorted(x.name for x in n.adjacent_nodes(m))
            ctx.check(got == adj, "adjacent nodes of %s: %s, expected %s", n.name, got, adj)
            ctx.check(m.is_node_an_orphan(n) is (not mine), "is_node_an_orphan(%s) is %s", n.name, m.is_node_an_orphan(n))
        got = sorted(n.name for n in m.get_orphan_node_objects())
        exp = sorted(n for n in v.nodes if not any(i[0] == n for i in v.ifs))
        ctx.check(got == exp, "orphan nodes are %s, expected %s", got, exp)
        for what, f, ks in (("LSP", m.parallel_lsp_groups, set(v.lsps)), ("demand", m.parallel_demand_groups, keys)):
            g = f()
            exp = {}
            for k in ks:
                exp.setdefault("%s-%s" % k[:2], []).append(k)
            got = {n: sorted(okey(x) for x in xs) for n, xs in g.items()}
            d = diff(got, {n: sorted(x) for n, x in exp.items()})
            ctx.check(d is None, "parallel %s groups: %s", what, d)
            ctx.interesting(any(len(x) > 1 for x in exp.values()))


class C30(C12):
    id = "C30"
    rule = (
        "histories of 2-14 edits, failures and repairs of models that are simulated or not; after each operation, with no update "
        "in between, every lookup and list is compared with the reference model, the path queries with the shortest paths of the "
        "present topology; non-trivial: an operation changes the network and no update follows it"
    )
    opts = dict(
        lsps=0.7, srlgs=0.3, shortcuts=0.2, rsvp_off=0.2, pct=0.2, demands=(0, 6), nodes=(2, 6), ops=(2, 14), big=0.0, focus_pairs=0.6,
        op_weights=dict(update=0.6, add_lsp=3, rm_lsp=3, add_demand=2, rm_demand=2, add_node=1.5, add_ck=2, rename_if=1.5, set_cost=2.5, fail_srlg=1, unfail_srlg=1, set_bw=0.7),
    )
    op_share = 1.0
    cases = {"quick": 12000, "thorough": 400000}

    def run(self, spec, ctx):
        w = World(spec)
        if spec["salt"] % 4:
            w.update()
            self.now(w, ["first update"], ctx)
        elif spec["salt"] % 8 or w.net.perf:  # validation pairs the interfaces of a PerformanceModel
            w.model.validate_model()
            self.now(w, ["validate"], ctx)
        for op in spec["ops"]:
            if not w.apply(op):
                continue
            ctx.tag("op " + op[0])
            if w.dirty:
                ctx.interesting()
            if w.look():
                self.now(w, op, ctx)
            else:
                ctx.tag("not looked at")
        self.now(w, ["the last operation"], ctx)

    def now(self, w, op, ctx):
        m, net = w.model, w.net
        edges = net.edges()
        after = "after %s: " % (op,)

        def same(got, exp, what, *args):
            got, exp = sorted(got, key=repr), sorted(exp, key=repr)
            if got != exp:
                ctx.check(False, after + what + " gives %s, expected %s", *(args + (got, exp)))
            ctx.check(True, "")

        rng = random.Random(w.spec["salt"] + len(w.applied))
        for n in sorted(net.nodes):
            x = m.get_node_object(n)
            ctx.check(any(x is y for y in m.node_objects) and x.name == n, after + "get_node_object(%r) returns %r", n, x)
            mine = [i for i in edges if i[0] == n]
            same([ikey(i) for i in x.interfaces(m)], mine, "interfaces of %s", n)
            same([ikey(i) for i in m.get_node_interfaces(n)], mine, "get_node_interfaces(%r)", n)
            same([y.name for y in x.adjacent_nodes(m)], {edges[i].v for i in mine}, "adjacent nodes of %s", n)
            ctx.check(m.is_node_an_orphan(x) is (not mine), after + "is_node_an_orphan(%s) is %s", n, m.is_node_an_orphan(x))
            same([okey(d) for d in m.get_demand_objects_source_node(n)], [k for k in net.demands if k[0] == n], "demands from %s", n)
            same([okey(d) for d in m.get_demand_objects_dest_node(n)], [k for k in net.demands if k[1] == n], "demands to %s", n)
            ctx.check(x.failed is bool(net.nodes[n]["failed"]), after + "node %s: failed is %s", n, x.failed)
        same([x.name for x in m.get_orphan_node_objects()], [n for n in net.nodes if not any(i[0] == n for i in edges)], "orphan nodes")
        same([x.name for x in m.get_failed_node_objects()], [n for n, x in net.nodes.items() if x["failed"]], "failed nodes")
        same([x.name for x in m.get_non_failed_node_objects()], [n for n, x in net.nodes.items() if not x["failed"]], "non-failed nodes")
        same([ikey(i) for i in m.get_failed_interface_objects()], [i for i, e in edges.items() if not e.up], "failed interfaces")
        same([ikey(i) for i in m.get_unfailed_interface_objects()], [i for i, e in edges.items() if e.up], "unfailed interfaces")
        for i, e in sorted(edges.items()):
            x = m.get_interface_object(i[1], i[0])
            ctx.check(ikey(x) == i and x in m.interface_objects and any(x is y for y in m.interface_objects), after + "get_interface_object%s returns %r", i, x)
            ctx.check((x.cost, x.capacity, x.remote_node_object.name) == (e.cost, e.cap, e.v), after + "interface %s is %r", i, x)
        for k, t in sorted(net.demands.items()):
            x = m.get_demand_object(*k)
            ctx.check(okey(x) == k and x in m.demand_objects and x.traffic == t, after + "get_demand_object%s returns %r", k, x)
        for k in sorted(net.lsps):
            x = m.get_rsvp_lsp(*k)
            ctx.check(okey(x) == k and x in m.rsvp_lsp_objects, after + "get_rsvp_lsp%s returns %r", k, x)
            if unrouted(x) and all(unrouted(y) for y in m.rsvp_lsp_objects if okey(y)[:2] == k[:2]):
                t, c = x.traffic_on_lsp(m), x.topology_metric(m)
                ctx.check(t == 0 and c == "Unrouted", after + "the unrouted LSP %s has the traffic %r and the topology metric %r", k, t, c)
                ctx.check(not x.demands_on_lsp(m), after + "the unrouted LSP %s carries demands", k)
        same([okey(d) for d in m.get_unrouted_demand_objects()], [okey(d) for d in m.demand_objects if d.path == "Unrouted"], "unrouted demands")
        for what, f, ks in (("LSP", m.parallel_lsp_groups, net.lsps), ("demand", m.parallel_demand_groups, net.demands)):
            exp = {}
            for k in ks:
                exp.setdefault("%s-%s" % k[:2], []).append(k)
            d = diff({n: sorted(okey(x) for x in xs) for n, xs in f().items()}, {n: sorted(x) for n, x in exp.items()})
            ctx.check(d is None, after + "parallel %s groups: %s", what, d)
        same([s.name for s in m.srlg_objects], net.srlgs, "SRLGs")
        for n in sorted(net.srlgs):
            ctx.check(m.get_srlg_object(n).name == n, after + "get_srlg_object(%r) returns another SRLG", n)
        gone = w.__dict__.setdefault("seen", set())
        present = {("interface",) + (i[1], i[0]) for i in edges} | {("demand",) + k for k in net.demands} | {("LSP",) + k for k in net.lsps}
        for k in sorted(gone - present):
            f = dict(interface=m.get_interface_object, demand=m.get_demand_object, LSP=m.get_rsvp_lsp)[k[0]]
            ctx.tag("former " + k[0])
            try:
                x = f(*k[1:])
            except Exception:
                x = None
            ctx.check(x is None, after + "looking up the former %s %s gives %r", k[0], k[1:], x)
        gone |= present
        # path queries: what the interfaces say now
        C12.check_state(self, w, View(m), ctx)


# ------------------------------------------------------------------ differential


PAIRS = [("perf", "flex"), ("perf", "flex"), ("legacy_perf", "perf"), ("legacy_flex", "flex"), ("legacy_perf", "legacy_flex")]


class C20(Prop):
    id = "C20"
    rule = (
        "the same simple-graph network and history in the PerformanceModel and the FlexModel, or any network in a class and "
        "its legacy alias; paths, traffic, failure states, LSPs and path queries compared; non-trivial: a demand has several "
        "paths, rides LSPs or is unrouted"
    )
    cases = {"quick": 36000, "thorough": 500000}
    opts = dict(lsps=0.5, demands=(1, 7), srlgs=0.2, contention=0.25, legacy=0, ops=(0, 10), op_weights=dict(fail_srlg=1, unfail_srlg=1))

    def gen(self, rng, i):
        pair = rng.choice(PAIRS)
        flexonly = pair[0].endswith("flex")
        spec = gen.network(rng, cls="flex" if flexonly else "perf", shortcuts=0.3 if flexonly else 0, **self.opts)
        spec["pair"] = list(pair)
        return spec

    def normalise(self, spec):
        return gen.normalise(spec)

    def run(self, spec, ctx):
        a, b = (World(spec, cls=c, order=random.Random(spec["salt"])) for c in spec["pair"])
        ctx.tag("%s / %s" % tuple(spec["pair"]))
        self.compare(a, b, spec, ctx)
        for op in spec["ops"]:
            if op[0] == "set_bw" and len(op) > 4 and op[4] is None:
                continue
            done = []
            for w in (a, b):
                try:
                    done.append(w.apply(op))
                except Discard:
                    done.append("refused")
            ctx.check(done[0] == done[1], "%s: %s in one model, %s in the other", op, done[0], done[1])
            if done[0] == "refused":
                raise Discard()
            if op[0] == "update" and done[0]:
                self.compare(a, b, spec, ctx)
        self.compare(a, b, spec, ctx)

    def compare(self, a, b, spec, ctx):
        for w in (a, b):
            w.update()
        va, vb = View(a.model), View(b.model)
        same_kind = spec["pair"][0].split("_")[-1] == spec["pair"][1].split("_")[-1]
        ra, rb = results(a.model), results(b.model)
        det = lsps_deterministic(va) and lsps_deterministic(vb)
        ctx.tag("LSPs compared" if det and va.lsps else "no LSPs" if det else "IGP compared")
        ctx.interesting(any((x[0] is None or len(x[0]) > 1 or x[0][0][0][0] == "L") for x in ra["dmds"].values()))
        if same_kind:
            d = diff(tame(no_baseline(ra)), tame(no_baseline(rb))) if det else diff(tame(igp_part(va, ra)), tame(igp_part(vb, rb)))
            ctx.check(d is None, "%s and %s differ: %s", spec["pair"][0], spec["pair"][1], d)
            if det:
                self.derived(spec, va, vb, ctx)
        else:
            if det:
                xa, xb = no_baseline(ra), no_baseline(rb)
            else:
                xa, xb = igp_part(va, ra), igp_part(vb, rb)
            pa = {k: x[0] for k, x in xa["dmds"].items()}
            pb = {k: x[0] for k, x in xb["dmds"].items()}
            d = diff({"paths": pa, "nodes": xa["nodes"], "failed": {k: x[0] for k, x in xa["ifs"].items()}, "lsps": tame(xa.get("lsps"))},
                     {"paths": pb, "nodes": xb["nodes"], "failed": {k: x[0] for k, x in xb["ifs"].items()}, "lsps": tame(xb.get("lsps"))})
            ctx.check(d is None, "%s and %s differ: %s", spec["pair"][0], spec["pair"][1], d)
            if det or "traffic" in xa:
                tol = 0.06 * len(a.model.demand_objects) + 1e-3
                for k, f in va.ifs.items():
                    g = vb.ifs[k]
                    ok = f.traffic == g.traffic or close(f.traffic, g.traffic, tol) if not isinstance(g.traffic, str) else f.traffic == g.traffic
                    ctx.check(ok, "%s and %s put %s and %s on interface %s", spec["pair"][0], spec["pair"][1], f.traffic, g.traffic, k)
            self.details(spec, xa["dmds"], xb["dmds"], ctx)
            if det:
                self.derived(spec, va, vb, ctx)
        ca = sorted(tuple(sorted(ikey(i) for i in c.get_circuit_interfaces(a.model))) for c in a.model.circuit_objects)
        cb = sorted(tuple(sorted(ikey(i) for i in c.get_circuit_interfaces(b.model))) for c in b.model.circuit_objects)
        ctx.check(ca == cb, "%s and %s find different circuits: %s", spec["pair"][0], spec["pair"][1], sorted(set(ca) ^ set(cb))[:3])
        rng = random.Random(spec["salt"])
        names = sorted(va.nodes)
        for _ in range(2):
            s, t = rng.sample(names, 2)
            bw = rng.choice([0, 0, 5, 20]) if det else 0
            q = [m.get_shortest_path(s, t, bw) for m in (a.model, b.model)]
            q = [(x["cost"], sorted(tuple(ikey(i) for i in p) for p in x["path"])) for x in q]
            ctx.check(q[0] == q[1], "shortest paths from %s to %s with %s differ: %s / %s", s, t, bw, q[0], q[1])
            if len(names) <= 8:
                q = [m.get_all_paths_reservable_bw(s, t, bool(bw), 4, bw)["path"] for m in (a.model, b.model)]
                q = [sorted(tuple(ikey(i) for i in p) for p in x) for x in q]
                ctx.check(q[0] == q[1], "all paths from %s to %s with %s differ: %s / %s", s, t, bw, q[0][:3], q[1][:3])


    def details(self, spec, da, db, ctx):
        """path details: the same paths with the same traffic and splits"""
        for k in da:
            a, b = da[k][1], db[k][1]
            if isinstance(a, str) or isinstance(b, str):
                ctx.check(a == b, "%s and %s have the path details %s and %s for demand %s", spec["pair"][0], spec["pair"][1], a, b, k)
                continue
            ctx.check([x[0] for x in a] == [x[0] for x in b], "the path details of demand %s list %s in the %s, %s in the %s", k, a, spec["pair"][0], b, spec["pair"][1])
            for x, y in zip(a, b):
                ctx.check(close(x[1], y[1], 1e-4), "demand %s: traffic %s and %s on the path %s", k, x[1], y[1], x[0])
                if x[2] is not None and y[2] is not None:
                    ctx.check(x[2] == y[2], "demand %s: splits %s and %s on the path %s", k, x[2], y[2], x[0])

    def derived(self, spec, va, vb, ctx):
        """what the models derive from the paths"""
        for k, x in va.lsps.items():
            y = vb.lsps[k]
            ta, tb = x.traffic_on_lsp(va.model), y.traffic_on_lsp(vb.model)
            ctx.check(close(ta, tb, 1e-6 * (1 + abs(tb) if isinstance(tb, (int, float)) else 1)), "LSP %s carries %s in the %s, %s in the %s", k, ta, spec["pair"][0], tb, spec["pair"][1])
            got = [(z.effective_metric(v.model), z.topology_metric(v.model), sorted(okey(d) for d in z.demands_on_lsp(v.model))) for z, v in ((x, va), (y, vb))]
            ctx.check(got[0] == got[1], "LSP %s: metrics and demands %s in the %s, %s in the %s", k, got[0], spec["pair"][0], got[1], spec["pair"][1])
        for k, i in va.ifs.items():
            j = vb.ifs[k]
            got = [(sorted(okey(d) for d in z.demands(v.model)), sorted(okey(l) for l in z.lsps(v.model))) for z, v in ((i, va), (j, vb))]
            ctx.check(got[0] == got[1], "interface %s: demands and LSPs %s in the %s, %s in the %s", k, got[0], spec["pair"][0], got[1], spec["pair"][1])


# ------------------------------------------------------------------ metamorphic


class C21(Prop):
    id = "C21"
    rule = (
        "a network and its transformed twin: renamed consistently, created in another order, costs times k, traffic times "
        "k, demands one at a time, or circuits and nodes failed against left out; non-trivial: some demand is routed over "
        "more than one interface"
    )
    cases = {"quick": 48000, "thorough": 600000}
    KINDS = ["relabel", "relabel", "reorder", "costs", "traffic", "superposition", "absent", "absent"]

    def gen(self, rng, i):
        kind = rng.choice(self.KINDS)
        lsps = 0.4 if kind in ("relabel", "reorder", "absent") else 0.0
        spec = gen.network(rng, lsps=lsps, shortcuts=0.2 if lsps else 0.0, contention=0.2, demands=(1, 7), ops=(0, 0), mm=0.3)
        spec["meta"] = [kind, rng.randrange(1 << 20)]
        return spec

    def normalise(self, spec):
        return gen.normalise(spec)

    def sim(self, net, cls, order=None):
        m = build_objects(net, cls, order)
        m.update_simulation()
        return m

    def run(self, spec, ctx):
        kind, seed = spec["meta"]
        rng = random.Random(seed)
        net = Net.from_spec(spec)
        base = self.sim(net, spec["cls"]) if kind != "absent" else None
        ctx.tag(kind)
        getattr(self, kind)(spec, net, base, rng, ctx)
        if base is not None:
            ctx.interesting(any(len(p) > 1 or len(d.path) > 1 for d in base.demand_objects if d.path != "Unrouted" for p in d.path))

    def same(self, a, b, what, ctx, rename=lambda r: r):
        va, vb = View(a), View(b)
        ra, rb = results(a), results(b)
        if lsps_deterministic(va) and lsps_deterministic(vb):
            x, y = no_baseline(ra), no_baseline(rb)
            ctx.tag("full")
        else:
            x, y = igp_part(va, ra), igp_part(vb, rb)
        d = diff(tame(rename(x)), tame(y))
        ctx.check(d is None, "%s changes the results: %s", what, d)

    def reorder(self, spec, net, base, rng, ctx):
        for _ in range(2):
            self.same(self.sim(net, spec["cls"], rng), base, "another order of creation", ctx)

    def relabel(self, spec, net, base, rng, ctx):
        names = list(net.nodes)
        style = rng.choice(["permute", "fresh", "reverse", "suffix"])
        if style == "permute":
            new = list(names)
            rng.shuffle(new)
        elif style == "fresh":
            new = ["n%03d" % x for x in rng.sample(range(1000), len(names))]
        elif style == "reverse":
            new = ["%c" % (122 - i) if i < 26 else "zz%d" % i for i in range(len(names))]
        else:
            new = ["%sx%d" % (rng.choice("aZ0_"), i) for i in range(len(names))]
        nm = dict(zip(names, new))
        ifs, iname, ids = {}, {}, {}
        pool = rng.sample(range(1000, 9999), 2 * len(net.cks) + 2)
        for j, (k, c) in enumerate(net.cks.items()):
            iname[(c["a"], c["na"])] = "p%d" % pool[2 * j]
            iname[(c["b"], c["nb"])] = "p%d" % pool[2 * j + 1]
            ids[k] = rng.choice([str, int])(pool[2 * j])
        dn = {k: "q%d" % j for j, k in enumerate(rng.sample(sorted(net.demands), len(net.demands)))}
        ln = {k: "t%d" % j for j, k in enumerate(rng.sample(sorted(net.lsps), len(net.lsps)))}
        twin = Net()
        twin.perf = net.perf
        order = list(net.nodes)
        rng.shuffle(order)
        for n in order:
            twin.nodes[nm[n]] = dict(net.nodes[n])
        for k in rng.sample(sorted(net.cks), len(net.cks)):
            c = dict(net.cks[k])
            c.update(na=iname[(c["a"], c["na"])], nb=iname[(c["b"], c["nb"])], a=nm[c["a"]], b=nm[c["b"]], id=ids[k])
            twin.cks[k] = c
        lsp = {k: (nm[k[0]], nm[k[1]], ln[k]) for k in net.lsps}
        dmd = {k: (nm[k[0]], nm[k[1]], dn[k]) for k in net.demands}
        for k, x in net.lsps.items():
            twin.lsps[lsp[k]] = dict(x)
        for k, x in net.demands.items():
            twin.demands[dmd[k]] = x

        def ik(k):
            return (nm[k[0]], iname[k])

        def it(x):
            return ("I",) + ik(x[1:]) if x[0] == "I" else ("L",) + lsp[x[1:]]

        def pathlist(ps):
            return None if ps is None else sorted(tuple(it(x) for x in p) for p in ps)

        def det(d):
            if not isinstance(d, list):
                return d
            return sorted(
                ((tuple(it(x) for x in i), t, None if s is None else sorted((it(x), y) for x, y in s)) for i, t, s in d), key=repr
            )

        def rename(r):
            out = {"nodes": {nm[k]: x for k, x in r["nodes"].items()}, "ifs": {ik(k): x for k, x in r["ifs"].items()}}
            out["dmds"] = {dmd[k]: (pathlist(x[0]), det(x[1])) for k, x in r["dmds"].items()}
            if "lsps" in r:
                out["lsps"] = {lsp[k]: ((tuple(ik(i) for i in x[0]),) + x[1:] if isinstance(x[0], tuple) else x) for k, x in r["lsps"].items()}
            if "traffic" in r:
                out["traffic"] = {ik(k): x for k, x in r["traffic"].items()}
            return out

        self.same(base, self.sim(twin, spec["cls"], rng), "renaming (%s)" % style, ctx, rename)

    def costs(self, spec, net, base, rng, ctx):
        k = rng.choice([2, 3, 5, 10, 1000])
        twin = net.copy()
        for c in twin.cks.values():
            c["ca"] *= k
            c["cb"] *= k
        self.same(base, self.sim(twin, spec["cls"], rng), "multiplying the costs by %s" % k, ctx)

    def tol(self, net, base, demands):
        if not net.perf:
            return 1e-6 * (1 + sum(net.demands.values()))
        return 0.051 * len(demands) + 1e-3

    def traffic(self, spec, net, base, rng, ctx):
        k = rng.choice([2, 3, 0.5, 10, 1.5, 100])
        twin = net.copy()
        for d in twin.demands:
            twin.demands[d] *= k
        m = self.sim(twin, spec["cls"], rng)
        a, b = View(base), View(m)
        t = self.tol(net, base, net.demands) * (1 + k)
        for i in a.ifs:
            x, y = a.ifs[i].traffic, b.ifs[i].traffic
            ctx.check(close(y, x * k, t + 1e-9 * abs(y)), "traffic times %s: interface %s carries %s instead of %s * %s", k, i, y, x, k)
        for d in base.demand_objects:
            o = m.get_demand_object(*okey(d))
            p, q = dmd_paths(d), dmd_paths(o)
            ctx.check((p and sorted(p)) == (q and sorted(q)), "traffic times %s: demand %s has other paths", k, okey(d))

    def superposition(self, spec, net, base, rng, ctx):
        total = {}
        for k in net.demands:
            twin = net.copy()
            twin.demands = {k: net.demands[k]}
            v = View(self.sim(twin, spec["cls"], rng))
            for i, f in v.ifs.items():
                total[i] = total.get(i, 0) + f.traffic
        v = View(base)
        t = 2 * self.tol(net, base, net.demands)
        for i, f in v.ifs.items():
            ctx.check(close(f.traffic, total.get(i, 0), t), "interface %s carries %s, its demands alone put %s on it", i, f.traffic, total.get(i, 0))

    def absent(self, spec, net, base, rng, ctx):
        gone = {k for k in net.cks if rng.random() < 0.3}
        dead = {n for n in net.nodes if rng.random() < 0.12}
        m = build_objects(net, spec["cls"], rng)
        m.validate_model()
        if rng.random() < 0.5:
            m.update_simulation()
        for k in sorted(gone):
            n, i = net.if_key(k, rng.choice("ab"))
            m.fail_interface(i, n)
        for n in sorted(dead):
            m.fail_node(n)
        m.update_simulation()
        out = {k for k, c in net.cks.items() if k in gone or c["a"] in dead or c["b"] in dead}
        twin = net.copy()
        for k in out:
            del twin.cks[k]
        o = self.sim(twin, spec["cls"], rng)
        left = {twin.if_key(k, s) for k in twin.cks for s in "ab"}

        def only(r):
            r = dict(r, nodes={})
            r["ifs"] = {k: x for k, x in r["ifs"].items() if k in left}
            if "traffic" in r:
                r["traffic"] = {k: x for k, x in r["traffic"].items() if k in left}
            return r

        va, vb = View(m), View(o)
        ra, rb = results(m), results(o)
        if lsps_deterministic(va) and lsps_deterministic(vb):
            x, y = no_baseline(ra), no_baseline(rb)
            ctx.tag("full")
        else:
            x, y = igp_part(va, ra), igp_part(vb, rb)
        d = diff(tame(only(x)), tame(only(y)))
        ctx.check(d is None, "failing circuits %s and nodes %s differs from leaving them out: %s", sorted(gone), sorted(dead), d)
        ctx.interesting(bool(out) and any(x[0] for x in rb["dmds"].values()))
