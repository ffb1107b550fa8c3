"""RSVP LSPs: C05-C08"""
from ..core import Violation
from ..net import floor1
from ..ref import Graph, Inconclusive, LspView, explain, r1
from ..world import okey, unrouted
from .base import StateProp, close

LSP_OPTS = dict(lsps=1.0, contention=0.7, demands=(1, 7), focus_pairs=0.8, rsvp_off=0.3, bypass=0.5, pct=0.35, bw=0.25, nodes=(2, 7))


def lsp_views(v):
    out = []
    for k, x in sorted(v.lsps.items()):
        if unrouted(x):
            out.append(LspView(k, x.configured_setup_bandwidth, None, None, None, x.setup_bandwidth))
        else:
            out.append(
                LspView(
                    k, x.configured_setup_bandwidth, tuple(v.lsp_path(k)), x.reserved_bandwidth,
                    x.path["baseline_path_reservable_bw"], x.setup_bandwidth,
                )
            )
    return out


def group_traffic(v):
    out = {}
    for d in v.model.demand_objects:
        k = okey(d)[:2]
        out[k] = out.get(k, 0) + d.traffic
    return out


def grouped(v):
    g = {}
    for x in lsp_views(v):
        g.setdefault(x.key[:2], []).append(x)
    t = group_traffic(v)
    keys = sorted(g)
    return [g[k] for k in keys], [t.get(k, 0) for k in keys]


def classify(groups, ctx):
    for g in groups:
        r = sum(x.path is not None for x in g)
        ctx.tag("group routed" if r == len(g) else "group unrouted" if not r else "group partial")


class C05(StateProp):
    id = "C05"
    rule = "LSP groups in tight networks with histories; non-trivial: an interface carries at least two LSPs with a positive reservation"
    opts = dict(LSP_OPTS)
    shortcut_lsps = 0.1
    cases = {"quick": 32000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        total, count, exact = {}, {}, {}
        for x in lsp_views(v):
            lsp = v.lsps[x.key]
            if x.path is None:
                ctx.check(
                    not isinstance(lsp.reserved_bandwidth, (int, float)), "unrouted LSP %s reserves %r", x.key, lsp.reserved_bandwidth
                )
                continue
            ctx.check(
                isinstance(x.reserved, (int, float)) and x.reserved >= 0, "routed LSP %s reserves %r", x.key, x.reserved
            )
            for e in x.path:
                total[e] = total.get(e, 0) + r1(x.reserved)
                exact[e] = exact.get(e, 0) + x.reserved
                count[e] = count.get(e, 0) + (x.reserved > 0)
        for i, f in sorted(v.ifs.items()):
            n = count.get(i, 0)
            ctx.check(
                close(f.reserved_bandwidth, total.get(i, 0), 0.051 * n + 1e-6),
                "interface %s has %s reserved, its LSPs reserve %s", i, f.reserved_bandwidth, total.get(i, 0),
            )
            limit = f.capacity * f.percent_reservable_bandwidth / 100.0
            if f.rsvp_enabled:
                ctx.check(
                    any(close(f.reservable_bandwidth, floor1(limit - f.reserved_bandwidth + y), 1e-9) for y in (-1e-4, 0, 1e-4)),
                    "interface %s: reservable %s, limit %s - reserved %s", i, f.reservable_bandwidth, limit, f.reserved_bandwidth,
                )
            else:
                ctx.check(f.reservable_bandwidth == -1, "interface %s is not RSVP enabled and has %s reservable", i, f.reservable_bandwidth)
                ctx.check(f.reserved_bandwidth == 0, "interface %s is not RSVP enabled and has %s reserved", i, f.reserved_bandwidth)
            ctx.check(
                f.reserved_bandwidth <= limit + 1e-3 and exact.get(i, 0) <= limit + 0.05 * n + 1e-3,
                "interface %s: %s reserved (LSPs: %s), the limit is %s", i, f.reserved_bandwidth, exact.get(i, 0), limit,
            )
            if n > 1:
                ctx.interesting()
                ctx.tag("shared")


class C06(StateProp):
    id = "C06"
    rule = "as C05, with parallel links; non-trivial: a routed LSP of at least two hops, or over one of several parallel links"
    opts = dict(LSP_OPTS, nodes=(2, 8), contention=0.5)
    cases = {"quick": 32000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        m = v.model
        model_ifs = list(m.interface_objects)
        groups, traffic = grouped(v)
        resignaled = any(0 < sum(x.path is not None for x in g) < len(g) for g in groups)
        for g in groups:
            for x in g:
                lsp = v.lsps[x.key]
                if x.path is None:
                    ctx.check(lsp.path == "Unrouted", "LSP %s has the path %r", x.key, lsp.path)
                    continue
                ctx.check(len(x.path) > 0, "LSP %s has an empty path", x.key)
                n = x.key[0]
                seen = {n}
                for i, e in zip(lsp.path["interfaces"], x.path):
                    ctx.check(any(i is y for y in model_ifs), "LSP %s: %s is not an interface of the model", x.key, e)
                    q = v.edges[e]
                    ctx.check(q.u == n, "LSP %s: the path %s is not a chain at %s", x.key, x.path, n)
                    n = q.v
                    ctx.check(n not in seen, "LSP %s: the path %s visits %s twice", x.key, x.path, n)
                    seen.add(n)
                    ctx.check(q.up, "LSP %s: interface %s of its path is failed", x.key, e)
                    ctx.check(q.rsvp, "LSP %s: interface %s of its path is not RSVP enabled", x.key, e)
                ctx.check(n == x.key[1], "LSP %s: the path %s ends at %s", x.key, x.path, n)
                cost = sum(v.edges[e].cost for e in x.path)
                ctx.check(lsp.path["path_cost"] == cost, "LSP %s: path_cost %s, the interfaces cost %s", x.key, lsp.path["path_cost"], cost)
                ctx.check(lsp.topology_metric(m) == cost, "LSP %s: topology metric %s, the interfaces cost %s", x.key, lsp.topology_metric(m), cost)
                b = x.baseline
                ctx.check(isinstance(b, (int, float)), "LSP %s: baseline %r", x.key, b)
                ctx.check(b >= x.reserved - 0.0501, "LSP %s: baseline %s is less than the %s it reserves", x.key, b, x.reserved)
                top = min(v.edges[e].limit for e in x.path)
                ctx.check(b <= top + 0.06, "LSP %s: baseline %s, an interface of its path allows %s", x.key, b, top)
                if not resignaled:
                    left = min(v.edges[e].reservable for e in x.path)
                    ctx.check(
                        b >= left + x.reserved - 0.11, "LSP %s: baseline %s, but %s + its own %s are available on its path now", x.key, b, left, x.reserved
                    )
                    ctx.check(
                        any(abs(b - y) < 0.11 for y in baselines(v, x)),
                        "LSP %s: baseline %s is not what any of the LSPs before it left on its path", x.key, b,
                    )
                if len(x.path) > 1 or sum(1 for q in v.g.out[x.key[0]] if q.v == x.key[1]) > 1:
                    ctx.interesting()
                ctx.tag("hops %d" % min(len(x.path), 6))


def baselines(v, x):
    """What can be left on the path of x before it signals: subsets of the other LSPs there"""
    others = [
        y for k, l in v.lsps.items() if k != x.key and not unrouted(l) and set(v.lsp_path(k)) & set(x.path) for y in [(k, set(v.lsp_path(k)), r1(l.reserved_bandwidth))]
    ]
    if len(others) > 9:
        return [x.baseline]
    out = []
    for mask in range(1 << len(others)):
        res = {e: 0 for e in x.path}
        for j, (k, es, bw) in enumerate(others):
            if mask >> j & 1:
                for e in es & set(x.path):
                    res[e] += bw
        out.append(min(r1(v.edges[e].limit - res[e]) for e in x.path))
    return out


def could_route(v, x, bw):
    """the least-cost paths for x if nothing else were reserved"""
    g = Graph(v.nodes, {i: e for i, e in v.edges.items() if e.up and e.rsvp and r1(e.limit) >= bw - 1e-9}, use=lambda e: True)
    return g


class C07(StateProp):
    id = "C07"
    rule = (
        "tight LSP networks (4 of 10) and roomy ones; the oracle searches a signaling order that explains every path; "
        "non-trivial: some LSP is not on its least-cost RSVP-capable path or is unrouted because of reservations"
    )
    opts = dict(LSP_OPTS)
    cases = {"quick": 40000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        groups, traffic = grouped(v)
        if not groups:
            return
        classify(groups, ctx)
        need = {}
        for g, t in zip(groups, traffic):
            for x in g:
                need[x.key] = x.bw if x.bw is not None else t / len(g)
        total = sum(max(need[x.key], t if x.bw is None else 0) for g, t in zip(groups, traffic) for x in g)
        # without contention: decided directly
        for g, t in zip(groups, traffic):
            for x in g:
                gr = Graph(v.nodes, v.edges, use=lambda e: e.up and e.rsvp)
                lim = [e.limit for e in v.edges.values() if e.up and e.rsvp]
                free = all(y >= total + 0.1 * len(need) for y in lim)
                least = gr.cost(x.key[0], x.key[1])
                if least is None:
                    ctx.check(x.path is None, "LSP %s is routed over %s, no path of RSVP interfaces exists", x.key, x.path)
                elif free:
                    ctx.check(x.path is not None, "LSP %s is unrouted, there is no contention for bandwidth", x.key)
                    ctx.check(x.path in gr.best_paths(x.key[0], x.key[1]) or _partial(g), "LSP %s takes %s, which is not a best path", x.key, x.path)
                    ctx.tag("free")
                elif x.path is None or sum(v.edges[e].cost for e in x.path) > least:
                    ctx.interesting()
        try:
            ok = explain(v.nodes, v.edges, groups, traffic)
        except Inconclusive:
            ctx.tag("inconclusive")
            return
        ctx.tag("explained")
        ctx.check(ok, "no signaling order explains the LSPs: %s", [(x.key, x.bw, x.path, x.reserved, x.baseline) for g in groups for x in g])


def _partial(g):
    return 0 < sum(x.path is not None for x in g) < len(g)


class C08(StateProp):
    id = "C08"
    rule = "LSP groups with fixed and auto bandwidth in tight networks; non-trivial: a group of which only some LSPs route, or a mixed group"
    opts = dict(LSP_OPTS, bw=0.3, contention=0.85, focus_pairs=0.95, mm=0.15, op_weights=dict(set_bw=3, set_traffic=4, set_cap=2))
    cases = {"quick": 40000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        groups, traffic = grouped(v)
        classify(groups, ctx)
        partial = False
        for g, t in zip(groups, traffic):
            routed = [x for x in g if x.path is not None]
            part = 0 < len(routed) < len(g)
            partial = partial or part
            first = t / len(g)
            if part or (any(x.bw is not None for x in g) and any(x.bw is None for x in g)):
                ctx.interesting()
            for x in g:
                lsp = v.lsps[x.key]
                bw = w.net.lsps[x.key]["bw"]
                if x.path is None:
                    ctx.check(lsp.path == "Unrouted", "unrouted LSP %s reports the path %r", x.key, lsp.path)
                    ctx.check(lsp.reserved_bandwidth == "Unrouted", "unrouted LSP %s reports %r reserved", x.key, lsp.reserved_bandwidth)
                if bw is not None:
                    ctx.tag("fixed")
                    ctx.check(close(lsp.setup_bandwidth, bw, 1e-9), "LSP %s has the setup bandwidth %s, %s is configured", x.key, lsp.setup_bandwidth, bw)
                    if x.path is not None:
                        ctx.check(close(x.reserved, bw, 1e-9), "LSP %s reserves %s, %s is configured", x.key, x.reserved, bw)
                    continue
                ctx.tag("auto")
                ok = [first]
                if part and x.path is not None:
                    ok.append(t / len(routed))
                tol = 1e-6 * (1 + t)
                ctx.check(any(close(lsp.setup_bandwidth, y, tol) for y in ok), "LSP %s signals for %s, expected one of %s", x.key, lsp.setup_bandwidth, ok)
                if x.path is not None:
                    ctx.check(any(close(x.reserved, y, tol) for y in ok), "LSP %s reserves %s, expected one of %s", x.key, x.reserved, ok)
                    ctx.check(close(x.reserved, lsp.setup_bandwidth, tol), "LSP %s signals for %s but reserves %s", x.key, lsp.setup_bandwidth, x.reserved)
        if partial:
            try:
                ok = explain(v.nodes, v.edges, groups, traffic)
            except Inconclusive:
                ctx.tag("inconclusive")
                return
            ctx.check(ok, "no re-signaling explains the reservations: %s", [(x.key, x.bw, x.path, x.reserved) for g in groups for x in g])
