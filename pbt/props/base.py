from .. import gen
from ..core import Ctx, Discard, Prop, Violation
from ..ref import Graph
from ..world import okey, World, is_if, is_lsp, item_key, lsp_edges, observed_net, unrouted


class View:
    """A simulated model, indexed once: what the routing oracles need of it"""

    def __init__(self, model):
        self.model = model
        self.nodes, self.edges = observed_net(model)
        self.g = Graph(self.nodes, self.edges)
        self.ifs = {(i.node_object.name, i.name): i for i in model.interface_objects}
        self.lsps = {okey(x): x for x in model.rsvp_lsp_objects}
        self.routed = {}
        for k, x in self.lsps.items():
            if not unrouted(x):
                self.routed.setdefault(k[:2], []).append(k)
        self.sc = {n.name for n in model.node_objects if n.igp_shortcuts_enabled}
        self._metric = {}

    @property
    def demands(self):
        return sorted(self.model.demand_objects, key=lambda d: repr(okey(d)))

    def metric(self, key):
        """effective metric of a routed LSP, as documented"""
        if key not in self._metric:
            mm = self.lsps[key].manual_metric
            self._metric[key] = mm if mm != "not set" else self.g.cost(key[0], key[1])
        return self._metric[key]

    def e2e(self, s, d):
        """the LSPs a demand from s to d has to ride; [] if none"""
        c = self.routed.get((s, d), [])
        if not c:
            return []
        m = min(self.metric(k) for k in c)
        return sorted(k for k in c if self.metric(k) == m)

    def meets_shortcut(self, s, d):
        """Could an IGP demand from s to d meet an IGP-shortcut LSP?"""
        if not self.sc or not self.routed or self.g.cost(s, d) is None:
            return False
        dag = self.g.dag_nodes(s, d)
        return any(a in self.sc and a in dag and b in dag for a, b in self.routed)

    def lsp_path(self, key):
        return lsp_edges(self.lsps[key])


class StateProp(Prop):
    """Checks the state after the first update and after every later update of a history"""

    opts = {}
    op_share = 0.5
    shortcut_lsps = 0.0
    strict = False
    early = 0.2

    def gen(self, rng, i):
        o = dict(self.opts)
        if rng.random() < self.op_share:
            o.setdefault("ops", (1, 12))
        else:
            o["ops"] = (0, 0)
        spec = gen.network(rng, **o)
        if spec["cls"].endswith("flex") and rng.random() < self.shortcut_lsps:
            spec = gen.add_shortcut_lsps(rng, spec)
        if spec["cls"].endswith("perf") and rng.random() < 0.3:
            spec["idnone"] = rng.choice([True, "dup", "mix"])
        if spec["ops"] and rng.random() < self.early:
            spec["early"] = True
        return spec

    def normalise(self, spec):
        return gen.normalise(spec)

    def run(self, spec, ctx):
        w = World(spec, strict=self.strict)
        checked = w.start(spec)
        if checked:
            self.check_state(w, View(w.model), ctx)
        else:
            ctx.tag("edits before the first update")
        for op in spec["ops"]:
            if not w.apply(op):
                continue
            ctx.tag("op " + op[0])
            self.after_op(w, op, ctx)
            checked = False
            if op[0] == "update":
                self.check_state(w, View(w.model), ctx)
                checked = True
        if not checked:
            w.update()
            self.check_state(w, View(w.model), ctx)
            ctx.tag("history")

    def after_op(self, w, op, ctx):
        pass

    def check_state(self, w, v, ctx):
        raise NotImplementedError


def close(a, b, tol):
    return isinstance(a, (int, float)) and abs(a - b) <= tol


def lsps_deterministic(v):
    """Conservative: True if no random choice and no order of signaling can influence the LSPs of
    the simulated model (every interface either has room for all LSPs or is out of the question for
    an LSP whatever happens, and the best path is unique)"""
    if not v.lsps:
        return True
    traffic, groups, inexact = {}, {}, set()
    for d in v.model.demand_objects:
        k = okey(d)[:2]
        if d.traffic * 1024 % 1:
            inexact.add(k)
        traffic[k] = traffic.get(k, 0) + d.traffic
    for k in v.lsps:
        groups.setdefault(k[:2], []).append(k)
    needs, total = {}, 0.0
    for g, ks in groups.items():
        t, n = traffic.get(g, 0), len(ks)
        for k in ks:
            bw = v.lsps[k].configured_setup_bandwidth
            needs[k] = [bw] if bw is not None else [t / r for r in range(1, n + 1)]
            if bw is None and g in inexact and any(abs(y * 10 % 1 - 0.5) < 1e-6 for y in needs[k]):
                return False  # the order in which the traffic is added up decides how it is rounded
            total += max(needs[k]) + 0.1
    for g, ks in groups.items():
        routed = [k for k in ks if k in v.routed.get(g, [])]
        partial = 0 < len(routed) < len(ks)
        for k in ks:
            for need in needs[k]:
                use = {}
                for i, e in v.edges.items():
                    if not (e.up and e.rsvp):
                        continue
                    if e.limit >= total + 0.2:
                        use[i] = e
                    elif e.limit > need - 0.2:
                        return False
                graph = Graph(v.nodes, use, use=lambda e: True)
                if graph.cost(*g) is None:
                    continue
                if graph.count(*g) > 2000:
                    return False
                n = graph.count(*g) if partial else len(graph.best_paths(*g))
                if n != 1:
                    return False
    return True


def no_baseline(r):
    """results() without the baseline bandwidths, which depend on the order of signaling"""
    r = dict(r)
    r["lsps"] = {k: (x[:2] + x[3:] if len(x) == 5 else x) for k, x in r["lsps"].items()}
    return r


def igp_part(v, r):
    """The part of results() that no LSP can influence"""
    keep = {}
    for k, x in r["dmds"].items():
        if any(l[:2] == k[:2] for l in v.lsps) or (v.sc and v.lsps):
            continue
        keep[k] = x
    out = {"dmds": keep, "nodes": r["nodes"], "ifs": {k: x[:1] for k, x in r["ifs"].items()}}
    if len(keep) == len(r["dmds"]):
        out["traffic"] = {k: x[1:3] for k, x in r["ifs"].items()}
    return out
