"""Demand routing and traffic: C01-C04, C14, C15, C22, C23"""
from ..core import Discard, Violation
from ..ref import Graph, prefix_shares, shortcut_paths
from ..world import okey, detail, detail_items, dmd_paths, ikey, is_lsp, item_key, observed_net, unrouted
from .base import StateProp, close


def igp(p):
    return tuple(("I",) + e for e in p)


class C01(StateProp):
    id = "C01"
    rule = (
        "network (2-15 nodes, 9 topology shapes, parallel links, several cost styles, with and without RSVP, failures "
        "and a history of operations); non-trivial: some IGP demand has at least two least-cost paths, or a demand is "
        "unrouted although its endpoints are connected by failed circuits"
    )
    opts = dict(lsps=0.35, shortcuts=0.1, rsvp_off=0.35, demands=(1, 8))
    cases = {"quick": 48000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        for d in v.demands:
            s, t = d.source_node_object.name, d.dest_node_object.name
            if v.routed.get((s, t)):
                ctx.tag("on LSP")
                continue
            if v.meets_shortcut(s, t):
                ctx.tag("on shortcut")
                continue
            got = dmd_paths(d)
            exp = [igp(p) for p in v.g.paths(s, t)]
            ctx.tag("routed" if exp else "unrouted")
            if not exp:
                ctx.check(got is None, "demand %s: no path of up interfaces exists, but it has paths %s", okey(d), got)
                if any(not e.up for e in v.edges.values()):
                    ctx.interesting()
                continue
            ctx.check(got is not None, "demand %s is Unrouted although %s is a path", okey(d), exp[0])
            ctx.check(
                len(got) == len(set(got)), "demand %s: a path appears more than once: %s", okey(d), got
            )
            miss, extra = set(exp) - set(got), set(got) - set(exp)
            ctx.check(not miss, "demand %s: least-cost path %s is missing", okey(d), sorted(miss)[:1])
            ctx.check(not extra, "demand %s: %s is not a least-cost path", okey(d), sorted(extra)[:1])
            if len(exp) > 1:
                ctx.tag("ecmp")
                ctx.interesting()
            if any(sum(1 for q in v.g.out[v.edges[e[1:]].u] if q.v == v.edges[e[1:]].v) > 1 for p in exp for e in p):
                ctx.tag("parallel")
            if not all(v.edges[e[1:]].rsvp for p in exp for e in p):
                ctx.tag("non-RSVP on path")


def expected_traffic(v, ctx=None):
    """interface traffic by the documented rules: {edge: (traffic, tolerance)}; shortcuts excluded"""
    perf = not_flex(v.model)
    load = {i: 0.0 for i in v.edges}
    tol = {i: 1e-6 for i in v.edges}
    for d in v.demands:
        s, t = d.source_node_object.name, d.dest_node_object.name
        ks = v.e2e(s, t)
        if ks:
            for k in ks:
                for e in v.lsp_path(k):
                    load[e] += d.traffic / len(ks)
                    tol[e] += 1e-9 * d.traffic
            continue
        sh = v.g.shares(s, t)
        n = v.g.count(s, t) if sh else 0
        if n > 3000:
            raise Discard()
        for e, f in sh.items():
            load[e] += float(f * 1) * d.traffic
            tol[e] += (0.05 + 1e-4 * n) if perf else 1e-7 * (d.traffic + 1)
    return load, tol


def not_flex(model):
    from ..world import api

    return isinstance(model, api().PerformanceModel)


class C02(StateProp):
    id = "C02"
    rule = "as C01, with LSPs in half of the networks; non-trivial: an interface carries shares of a split demand"
    opts = dict(lsps=0.5, demands=(1, 9), contention=0.3)
    cases = {"quick": 48000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        for d in v.demands:
            if v.meets_shortcut(d.source_node_object.name, d.dest_node_object.name):
                raise Discard()
        load, tol = expected_traffic(v)
        for i, f in sorted(v.ifs.items()):
            if f.failed:
                continue
            ctx.check(
                close(f.traffic, load[i], tol[i]), "interface %s carries %s, the demands' shares add up to %s", i, f.traffic, load[i]
            )
            u = 100.0 * f.traffic / f.capacity
            ctx.check(
                close(f.utilization, u, 0.00501 + 1e-9 * abs(u)), "interface %s: utilization %s, expected %.4f", i, f.utilization, u
            )
            if f.traffic and any(abs(f.traffic - d.traffic) > 0.3 and f.traffic < d.traffic for d in v.model.demand_objects):
                ctx.interesting()
        for d in v.demands:
            s, t = d.source_node_object.name, d.dest_node_object.name
            n = len(v.e2e(s, t))
            ctx.tag("e2e split" if n > 1 else "e2e" if n else "igp")


class C03(StateProp):
    id = "C03"
    rule = (
        "networks with LSP groups that share endpoints with demands, manual metrics, tight capacity and failures; "
        "non-trivial: a demand chooses among at least two LSPs of its endpoints, or falls back although LSPs exist"
    )
    opts = dict(lsps=1.0, mm=0.4, contention=0.5, demands=(1, 7), focus_pairs=0.8)
    cases = {"quick": 28000, "thorough": 600000}

    def check_state(self, w, v, ctx):
        perf = not_flex(v.model)
        for d in v.demands:
            s, t = d.source_node_object.name, d.dest_node_object.name
            same = [k for k in v.lsps if k[:2] == (s, t)]
            got = dmd_paths(d)
            exp = v.e2e(s, t)
            if not exp:
                if v.meets_shortcut(s, t):
                    continue
                if same:
                    ctx.tag("fallback")
                    ctx.interesting()
                g = v.g.cost(s, t)
                if g is None:
                    ctx.check(got is None, "demand %s has neither LSP nor path, but is routed over %s", okey(d), got)
                else:
                    ctx.check(got is not None, "demand %s does not fall back to the IGP", okey(d))
                    for p in got:
                        for x in p:
                            ctx.check(x[0] == "I", "demand %s rides %s, which is not an LSP for it", okey(d), x)
                continue
            ctx.check(got is not None, "demand %s is Unrouted although LSP %s is routed", okey(d), exp)
            want = sorted((("L",) + k,) for k in exp)
            ctx.check(
                sorted(got) == want, "demand %s rides %s, the best LSPs are %s", okey(d), got, exp
            )
            if len(same) > 1:
                ctx.interesting()
            ctx.tag("metric choice" if len(exp) < len(same) else "all LSPs")
            pd = d.path_detail
            ctx.check(isinstance(pd, dict) and len(pd) == len(exp), "demand %s: path_detail %s for the LSPs %s", okey(d), pd, exp)
            for e in pd.values():
                its = [item_key(x) for x in detail_items(d, e)]
                ctx.check(len(its) == 1 and its[0][1:] in exp, "demand %s: path_detail lists %s", okey(d), its)
                share = d.traffic / len(exp)
                ctx.check(
                    close(e["path_traffic"], share, 1e-4 if perf else 1e-6 * (1 + share)),
                    "demand %s: %s takes %s, an equal share is %s", okey(d), its[0], e["path_traffic"], share,
                )


class C04(StateProp):
    id = "C04"
    rule = (
        "histories of failures and repairs of interfaces, nodes and SRLGs; non-trivial: after an update at least one "
        "circuit is down while a demand or LSP is routed"
    )
    opts = dict(
        lsps=0.6, srlgs=0.3, shortcuts=0.2, demands=(1, 7), ops=(2, 14),
        op_weights=dict(fail_if=8, unfail_if=5, fail_node=4, unfail_node=4, fail_srlg=2, unfail_srlg=2, update=5, add_ck=1.5),
    )
    op_share = 1.0
    strict = True
    cases = {"quick": 28000, "thorough": 600000}

    def check_state(self, w, v, ctx):
        m = v.model
        up = {i: e.up for i, e in w.net.edges().items()}
        down_nodes = {n for n, d in w.net.nodes.items() if d["failed"]}
        for n in m.node_objects:
            ctx.check(n.failed == (n.name in down_nodes), "node %s reports failed=%s", n.name, n.failed)
        for i, f in sorted(v.ifs.items()):
            ctx.check(f.failed is (not up[i]), "interface %s reports failed=%s", i, f.failed)
            if f.failed:
                ctx.check(f.traffic == "Down", "failed interface %s reports traffic %r", i, f.traffic)
                ctx.check(f.utilization == "Int is down", "failed interface %s reports utilization %r", i, f.utilization)
                ctx.check(f.reserved_bandwidth == 0, "failed interface %s has %s reserved", i, f.reserved_bandwidth)
            else:
                for what in ("traffic", "utilization", "reserved_bandwidth", "reservable_bandwidth"):
                    x = getattr(f, what)
                    ctx.check(
                        isinstance(x, (int, float)) and not isinstance(x, bool), "interface %s is up and reports %s=%r", i, what, x
                    )
                e = v.edges[i]
                ctx.check(e.u not in down_nodes and e.v not in down_nodes, "interface %s is up at a failed node", i)
            r = f.get_remote_interface(m)
            ctx.check(r.failed == f.failed, "%s and its remote interface %s disagree on being failed", i, ikey(r))
        for c in m.circuit_objects:
            a, b = c.get_circuit_interfaces(m)
            ctx.check(a.failed == b.failed == c.failed(m), "circuit %s %s: failed %s %s %s", ikey(a), ikey(b), a.failed, b.failed, c.failed(m))
        routed = False
        for x in m.rsvp_lsp_objects:
            if unrouted(x):
                continue
            routed = True
            for i in x.path["interfaces"]:
                ctx.check(up[ikey(i)], "LSP %s uses the failed interface %s", okey(x), ikey(i))
            for n in okey(x)[:2]:
                ctx.check(n not in down_nodes, "LSP %s is routed although its endpoint %s is failed", okey(x), n)
        for d in v.demands:
            p = dmd_paths(d)
            items = set()
            for q in p or []:
                routed = True
                items.update(q)
            if isinstance(d.path_detail, dict):
                for e in d.path_detail.values():
                    items.update(item_key(x) for x in detail_items(d, e))
            for x in items:
                if x[0] == "I":
                    ctx.check(up[x[1:]], "demand %s uses the failed interface %s", okey(d), x[1:])
                else:
                    y = v.lsps.get(x[1:])
                    ctx.check(y is not None and not unrouted(y), "demand %s uses the LSP %s, which is not routed", okey(d), x[1:])
            if p is not None:
                for n in okey(d)[:2]:
                    ctx.check(n not in down_nodes, "demand %s is routed although its endpoint %s is failed", okey(d), n)
        if routed and not all(up.values()):
            ctx.interesting()
        ctx.tag("down nodes" if down_nodes else "no down nodes")


class C14(StateProp):
    id = "C14"
    rule = "as C02; non-trivial: a routed demand of positive traffic has at least two paths"
    opts = dict(lsps=0.45, demands=(1, 7), shortcuts=0.15)
    shortcut_lsps = 0.15
    cases = {"quick": 28000, "thorough": 600000}

    def check_state(self, w, v, ctx):
        perf = not_flex(v.model)
        for d in v.demands:
            s, t = d.source_node_object.name, d.dest_node_object.name
            got = dmd_paths(d)
            pd = d.path_detail
            if got is None:
                ctx.check(pd == "Unrouted_detail", "unrouted demand %s has the path_detail %s", okey(d), pd)
                continue
            ctx.check(isinstance(pd, dict), "routed demand %s has the path_detail %r", okey(d), pd)
            rows = [(tuple(item_key(x) for x in detail_items(d, e)), e) for e in pd.values()]
            ctx.check(
                sorted(i for i, _ in rows) == sorted(got), "demand %s: paths %s, but path_detail lists %s", okey(d), got, [i for i, _ in rows]
            )
            n = len(rows)
            total = sum(e["path_traffic"] for _, e in rows)
            eps = 1e-6 * (1 + d.traffic) + (6e-5 * n if perf else 0)
            ctx.check(
                close(total, d.traffic, eps), "demand %s: path traffics add up to %s, its traffic is %s", okey(d), total, d.traffic
            )
            if n > 1 and d.traffic > 0:
                ctx.interesting()
            if v.routed.get((s, t)):
                ctx.tag("e2e")
                for i, e in rows:
                    if "splits" in e:
                        for x, k in e["splits"].items():
                            ctx.check(k == n, "demand %s: %s has %s splits, %s LSPs carry it", okey(d), item_key(x), k, n)
                continue
            if any(x[0] == "L" for i, _ in rows for x in i):
                ctx.tag("shortcut")
                continue
            ctx.tag("igp")
            if v.meets_shortcut(s, t):
                continue
            share = v.g.shares(s, t)
            per = {}
            for items, e in rows:
                sp = {item_key(x): k for x, k in e["splits"].items()}
                ctx.check(set(sp) == set(items), "demand %s: splits %s for the path %s", okey(d), sorted(sp), items)
                f = 1
                for x in items:
                    f *= len(v.g.next_edges(v.edges[x[1:]].u, t))
                    ctx.check(
                        sp[x] == f, "demand %s: %s on path %s has %s splits, the fan-outs multiply to %s", okey(d), x, items, sp[x], f
                    )
                pt = d.traffic / max(sp.values())
                ctx.check(
                    close(e["path_traffic"], pt, 1e-6 * (1 + pt) + (6e-5 if perf else 0)),
                    "demand %s: path %s carries %s, expected %s", okey(d), items, e["path_traffic"], pt,
                )
                for x in items:
                    per[x[1:]] = per.get(x[1:], 0) + e["path_traffic"]
            for x in set(per) | set(share):
                y = float(share.get(x, 0)) * d.traffic
                ctx.check(
                    close(per.get(x, 0), y, 1e-6 * (1 + y) + (6e-5 * n if perf else 0)),
                    "demand %s: the entries put %s on %s, its share is %s", okey(d), per.get(x, 0), x, y,
                )


class C15(StateProp):
    id = "C15"
    rule = (
        "any mix of IGP, LSP and IGP-shortcut routing; non-trivial: a transit node forwards traffic of a demand with "
        "several paths"
    )
    opts = dict(lsps=0.6, shortcuts=0.6, demands=(1, 7), mm=0.2, op_weights=dict(set_sc=1))
    shortcut_lsps = 0.5
    cases = {"quick": 32000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        perf = not_flex(v.model)
        m = v.model
        tol = {n: 1e-5 for n in v.nodes}
        per = 1e-5
        balance = {n: 0.0 for n in v.nodes}
        for d in v.demands:
            got = dmd_paths(d)
            if got is None:
                continue
            s, t = d.source_node_object.name, d.dest_node_object.name
            balance[s] += d.traffic
            balance[t] -= d.traffic
            if v.routed.get((s, t)):
                continue
            items = {x for p in got for x in p}
            for x in items:
                ends = []
                if x[0] == "L":
                    per += 0.051
                    for e in v.lsp_path(x[1:]):
                        ends += [v.edges[e].u, v.edges[e].v]
                elif perf:
                    per += 0.051
                    ends += [v.edges[x[1:]].u, v.edges[x[1:]].v]
                for n in ends:
                    tol[n] += 0.051 + 1e-4 * len(got)
            if any(x[0] == "L" for x in items):
                ctx.tag("shortcut")
            if len(got) > 1 and d.traffic > 0 and any(len(p) > 1 for p in got):
                ctx.interesting()
            if d.traffic > 0.2 * len(items) + 0.2:
                a = sum(f.traffic for i, f in v.ifs.items() if i[0] == s and not f.failed)
                b = sum(f.traffic for i, f in v.ifs.items() if v.edges[i].v == t and not f.failed)
                ctx.check(a > 0, "demand %s loads no egress interface of %s", okey(d), s)
                ctx.check(b > 0, "demand %s loads no ingress interface of %s", okey(d), t)
        net = {n: 0.0 for n in v.nodes}
        total = 0
        for i, f in v.ifs.items():
            if f.failed:
                continue
            ctx.check(isinstance(f.traffic, (int, float)) and f.traffic >= -1e-9, "interface %s carries %r", i, f.traffic)
            net[v.edges[i].u] += f.traffic
            net[v.edges[i].v] -= f.traffic
            total += f.traffic
        for n in sorted(net):
            x = tol[n] + 1e-9 * total
            ctx.check(
                abs(net[n] - balance[n]) <= x, "node %s: out - in = %s, demands starting - ending = %s (tolerance %s)", n, net[n], balance[n], x
            )
        if not any(dmd_paths(d) for d in v.demands):
            ctx.check(total <= 1e-9, "no demand is routed, but the interfaces carry %s", total)


class C22(StateProp):
    id = "C22"
    rule = (
        "FlexModel with IGP shortcuts on some nodes, LSPs between arbitrary pairs, manual metrics; non-trivial: a "
        "demand without end-to-end LSPs has a path with an LSP"
    )
    opts = dict(cls="flex", shortcuts=1.0, lsps=0.3, mm=0.35, contention=0.1, demands=(1, 6), focus_pairs=0.1, bw=0.1, nodes=(3, 8),
        op_weights=dict(set_sc=3, set_mm=3, set_cost=3))
    shortcut_lsps = 0.9
    cases = {"quick": 32000, "thorough": 800000}

    def check_state(self, w, v, ctx):
        for d in v.demands:
            s, t = d.source_node_object.name, d.dest_node_object.name
            if v.routed.get((s, t)):
                continue
            got = dmd_paths(d)
            if v.g.cost(s, t) is None:
                ctx.check(got is None, "demand %s has no IGP path but is routed over %s", okey(d), got)
                continue
            metric = {k: v.metric(k) for ks in v.routed.values() for k in ks}
            exp = shortcut_paths(v.g, s, t, v.sc, v.routed, metric)
            ctx.check(got is not None, "demand %s is Unrouted", okey(d))
            ctx.check(len(got) == len(set(got)), "demand %s: a path appears more than once: %s", okey(d), got)
            miss, extra = set(exp) - set(got), set(got) - set(exp)
            ctx.check(not miss, "demand %s: path %s is missing; it has %s", okey(d), sorted(miss)[:1], got[:3])
            ctx.check(not extra, "demand %s: path %s is not one the metrics call for; expected %s", okey(d), sorted(extra)[:1], sorted(exp)[:3])
            if any(x[0] == "L" for p in exp for x in p):
                ctx.interesting()
                ctx.tag("LSPs %d" % max(sum(x[0] == "L" for x in p) for p in exp))
                if len({p[:1] for p in exp}) > 1:
                    ctx.tag("split")


class C23(StateProp):
    id = "C23"
    rule = "networks with LSPs, manual metrics set at construction or later; non-trivial: an LSP without manual metric is routed off its IGP shortest path, or a manual metric is set"
    opts = dict(lsps=1.0, mm=0.4, contention=0.5, rsvp_off=0.5, ops=(1, 10), op_weights=dict(set_mm=5, set_cost=4, set_rsvp=3))
    op_share = 0.7
    cases = {"quick": 28000, "thorough": 500000}

    def after_op(self, w, op, ctx):
        """The metric is right at any time, not just after an update"""
        if op[0] not in ("fail_if", "unfail_if", "fail_node", "unfail_node", "set_cost", "set_mm"):
            return
        m = w.model
        _, edges = observed_net(m)
        g = Graph([n.name for n in m.node_objects], edges)
        for x in m.rsvp_lsp_objects:
            k = okey(x)
            mm = w.net.lsps[k]["mm"]
            if mm is not None:
                ctx.check(x.effective_metric(m) == mm, "LSP %s: effective metric %r after %s, its manual metric is %r", k, x.effective_metric(m), op, mm)
            elif not unrouted(x) and g.cost(*k[:2]) is not None:
                c, got = g.cost(*k[:2]), x.effective_metric(m)
                ctx.check(got == c, "LSP %s: effective metric %r after %s, the IGP cost is %r", k, got, op, c)
                ctx.tag("between updates")

    def check_state(self, w, v, ctx):
        m = v.model
        for k, x in sorted(v.lsps.items()):
            mm = w.net.lsps[k]["mm"]
            got = x.effective_metric(m)
            if mm is not None:
                ctx.check(x.manual_metric == mm, "LSP %s: manual metric %r, %r was set", k, x.manual_metric, mm)
                ctx.check(got == mm, "LSP %s: effective metric %r, its manual metric is %r", k, got, mm)
                ctx.interesting()
                ctx.tag("manual")
                continue
            ctx.check(x.manual_metric == "not set", "LSP %s: manual metric %r, none was set", k, x.manual_metric)
            if unrouted(x):
                ctx.check(got == "Unrouted", "unrouted LSP %s: effective metric %r", k, got)
                ctx.check(x.topology_metric(m) == "Unrouted", "unrouted LSP %s: topology metric %r", k, x.topology_metric(m))
                ctx.tag("unrouted")
                continue
            c = v.g.cost(k[0], k[1])
            ctx.check(got == c, "LSP %s: effective metric %r, the IGP cost is %r", k, got, c)
            tm = sum(v.edges[e].cost for e in v.lsp_path(k))
            ctx.check(x.topology_metric(m) == tm, "LSP %s: topology metric %r, its path costs %r", k, x.topology_metric(m), tm)
            if tm != c:
                ctx.interesting()
                ctx.tag("off shortest path")
        for k, x in sorted(v.lsps.items()):
            before = x.manual_metric
            for bad in (0, -2, 1.5, "7", None, []):
                try:
                    x.manual_metric = bad
                except Exception:
                    ctx.check(x.manual_metric == before, "LSP %s: the refused metric %r changed the manual metric to %r", k, bad, x.manual_metric)
                else:
                    raise Violation("LSP %s: manual metric %r is accepted" % (k, bad), "metric accepted")
            break
