"""The visualization: C25"""
import contextlib
import io
import json
import re

from .. import gen
from ..core import Prop, Violation
from .base import StateProp
from ..world import okey, World, api, diff, dmd_paths, ikey, is_lsp, lsp_edges, unrouted

class Map:
    """A WeatherMap, used the way a browser uses it"""

    def __init__(self, model):
        from pyNTM.weathermap import WeatherMap

        self.wm = WeatherMap(model)
        app = self.wm.app
        self.started = []

        def run(*a, **k):
            self.started.append(1)

        app.run = run
        app.run_server = run
        app.server.config["PROPAGATE_EXCEPTIONS"] = True
        self.app = self.wm.create_weathermap()
        self.client = app.server.test_client()
        self.layout = self.client.get("/_dash-layout").get_json()
        self.callbacks = {}
        for dep in self.client.get("/_dash-dependencies").get_json():
            outs = [o.rsplit(".", 1) for o in dep["output"].strip(".").split("...")]
            for o in outs:
                self.callbacks[tuple(o)] = (dep, outs)

    def call(self, out, changed, **values):
        """Fires the callback that feeds the property out after a change of the property changed;
        the value of each output, or None if there is no update"""
        key = tuple(out.rsplit(".", 1))
        if key not in self.callbacks:
            raise Violation("nothing feeds %s" % out, "callback missing")
        dep, outs = self.callbacks[key]
        inputs = []
        for i in dep["inputs"]:
            d = {"id": i["id"], "property": i["property"]}
            v = values.get("%s.%s" % (i["id"], i["property"]))
            d["value"] = v
            inputs.append(d)
        o = [{"id": a, "property": b} for a, b in outs]
        body = {
            "output": dep["output"],
            "outputs": o if dep["output"].startswith("..") else o[0],
            "inputs": inputs,
            "changedPropIds": [changed] if changed else [],
        }
        r = self.client.post("/_dash-update-component", json=body)
        if r.status_code == 204:
            return None
        if r.status_code != 200:
            raise Violation("%s failed with status %s" % (out, r.status_code), "callback failed")
        resp = r.get_json()["response"]
        return {"%s.%s" % (a, b): resp[a][b] for a, x in resp.items() for b in x}

    def one(self, out, changed, value, **more):
        values = {changed: value}
        values.update(more)
        r = self.call(out, changed, **values)
        return None if r is None else r[out]


def choices(options):
    """The selectable entries among the options (without placeholders), parsed"""
    out = []
    for o in options:
        v = o["value"]
        if not v:
            continue
        try:
            p = json.loads(v)
        except ValueError:
            continue
        if isinstance(p, dict) and p.get("source", "") != "":
            out.append((p, o))
    return out


def dkey(p):
    return (p["source"], p["dest"], p["name"])


def ifkey(p):
    return (p["source"], p["interface-name"])


def listed(ctx, what, got, exp):
    got, exp = sorted(got), sorted(exp)
    ctx.check(got == exp, "%s: shows %s, expected %s", what, got[:12], exp[:12])


SEL = re.compile(r'\[([a-z_-]+)="([^"]*)"\]')


def styles(sheet, elements):
    """The style each element ends up with"""
    out = {}
    for e in elements:
        kind = "edge" if "source" in e["data"] else "node"
        key = (kind, e["data"]["source"], e["data"]["interface-name"]) if kind == "edge" else (kind, e["data"]["id"])
        st = {}
        for rule in sheet:
            s = rule["selector"]
            k = s.split("[", 1)[0]
            if k != kind:
                continue
            if all(str(e["data"].get(a)) == b for a, b in SEL.findall(s)):
                st.update(rule["style"])
        out[key] = st
    return out


class C25(Prop):
    id = "C25"
    rule = (
        "simulated networks (both model types, failures, LSPs, shortcuts, names with '-', nodes without circuits), whose "
        "WeatherMap is built and then driven through the Dash request protocol (every selector, button and the stylesheet); "
        "non-trivial: at least one demand is routed and has a path of two or more hops"
    )
    assumptions = ["names do not contain double quotes (they cannot be used in Cytoscape selectors), and circuit ids differ as text (1 and '1' are one label)"]
    cases = {"quick": 2000, "thorough": 80000}

    def __init__(self):
        try:
            import pyNTM.weathermap  # noqa: F401  (before the workers start: it is slow to load)
        except Exception:
            pass

    def gen(self, rng, i):
        o = dict(nodes=(2, 6), demands=(0, 6), lsps=0.6, orphan=0.3, big=0.0, shortcuts=0.3, ops=(0, 0), blanks=False)
        if rng.random() < 0.6:
            o["ops"] = (1, 6)
        spec = gen.text_ids(gen.network(rng, **o))
        spec["ops"] = [p for p in spec["ops"] if p[0] in ("fail_if", "unfail_if", "fail_node", "unfail_node", "update", "set_cap", "set_cost")]
        # every utilization range has to turn up
        for c in spec["cks"]:
            if rng.random() < 0.3:
                c["cap"] = rng.choice([7, 13, 21, 33, 40, 67, 83, 111, 130])
        for n in spec["nodes"]:
            if rng.random() < 0.5:
                n["lat"], n["lon"] = rng.randint(-90, 90), rng.randint(-180, 180)
        return spec

    def normalise(self, spec):
        return gen.normalise(spec)

    def run(self, spec, ctx):
        w = World(spec)
        w.update()
        for op in spec["ops"]:
            w.apply(op)
        w.update()
        m = w.model
        self.m = m
        self.ifs = {ikey(i): i for i in m.interface_objects}
        self.dmds = {okey(d): d for d in m.demand_objects}
        self.lsps = {okey(x): x for x in m.rsvp_lsp_objects}
        self.used = {}  # demand -> (interfaces, LSPs)
        for k, d in self.dmds.items():
            paths = dmd_paths(d)
            if paths is None:
                self.used[k] = None
                continue
            ls = {it[1:] for p in paths for it in p if it[0] == "L"}
            ii = {it[1:] for p in paths for it in p if it[0] == "I"}
            for x in ls:
                ii |= set(lsp_edges(self.lsps[x]))
            self.used[k] = (ii, ls)
            ctx.interesting(any(len(p) > 1 for p in paths))
        mp = Map(m)
        ctx.check(mp.started, "create_weathermap does not start the app")
        el = self.elements(mp, ctx)
        self.layout(mp, ctx, el)
        self.utilities(mp, ctx)
        self.selectors(mp, ctx)
        self.selections(mp, ctx, el)
        self.highlight(mp, ctx, el)

    # -- the map

    def color(self, u):
        if u == "Int is down":
            return "dimgrey"
        for limit, c in ((25, "royalblue"), (50, "green"), (75, "yellow"), (90, "orangered"), (100, "darkred")):
            if u < limit:
                return c
        return "darkviolet"

    def elements(self, mp, ctx):
        m = self.m
        el = mp.wm.create_elements()
        nodes, mids, edges = {}, {}, {}
        for e in el:
            d = e["data"]
            if "source" in d:
                k = (d["source"], d["interface-name"])
                ctx.check(k not in edges, "two edges for interface %s", k)
                edges[k] = d
            else:
                store = mids if d.get("group") == "midpoint" else nodes
                x = (e["position"]["x"], e["position"]["y"], d["label"], d.get("failed"))
                ctx.check(store.setdefault(d["id"], x) == x, "node %s is shown in two ways: %s, %s", d["id"], x, store[d["id"]])
        exp = {n.name: (n.lon * 5, -n.lat * 5, n.name, str(n.failed)) for n in m.node_objects}
        d = diff(nodes, exp)
        ctx.check(d is None, "nodes on the map: %s", d)
        exp = {}
        for k, i in self.ifs.items():
            u = i.utilization
            exp[k] = {
                "source": k[0], "interface-name": k[1], "circuit_id": str(i.circuit_id), "utilization": u,
                "group": self.color(u), "capacity": i.capacity, "cost": i.cost,
            }
            ctx.tag("color " + self.color(u))
        d = diff({k: {a: b for a, b in x.items() if a != "target"} for k, x in edges.items()}, exp)
        ctx.check(d is None, "edges on the map: %s", d)
        used = set()
        for k, i in self.ifs.items():
            r = ikey(i.get_remote_interface(m))
            t = edges[k]["target"]
            used.add(t)
            ctx.check(t == edges[r]["target"] and t in mids, "the edges of circuit %s do not meet: %s, %s", i.circuit_id, t, edges[r]["target"])
            a, b = i.node_object, i.remote_node_object
            ok = abs(mids[t][0] - (a.lon + b.lon) * 2.5) < 1e-6 and abs(mids[t][1] + (a.lat + b.lat) * 2.5) < 1e-6
            ctx.check(ok, "the midpoint of %s is at %s", k, mids[t])
        ctx.check(used == set(mids), "midpoints without edges: %s", sorted(set(mids) - used)[:5])
        return el

    def layout(self, mp, ctx, el):
        """The page: it has the components the callbacks connect, and shows the elements"""
        comps = {}

        def walk(x):
            if isinstance(x, dict):
                if isinstance(x.get("props"), dict) and "id" in x["props"]:
                    comps[x["props"]["id"]] = x["props"]
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)

        walk(mp.layout)
        need = {o[0] for o in mp.callbacks} | {i["id"] for dep, _ in mp.callbacks.values() for i in dep["inputs"]}
        ctx.check(need <= set(comps), "components missing on the page: %s", sorted(need - set(comps)))

        def canon(x):
            return sorted(json.dumps(e, sort_keys=True) for e in json.loads(json.dumps(x)))

        shown = comps["cytoscape-prototypes"].get("elements", [])
        ctx.check(canon(shown) == canon(el), "the page does not show the elements of create_elements()")
        opts = comps["find-node"].get("options", [])
        ctx.check(opts == mp.wm.make_node_list(), "the nodes to choose from are %s", opts)
        opts = comps["utilization-dropdown-callback"].get("options", [])
        ctx.check([o["value"] for o in opts] == list(mp.wm.util_ranges.values()), "the utilizations to choose from are %s", opts)

    # -- utility functions

    def utilities(self, mp, ctx):
        wm, m = mp.wm, self.m
        names = sorted(n.name for n in m.node_objects)
        ctx.check(wm.make_node_list() == [{"label": n, "value": n} for n in names], "make_node_list() is %s", wm.make_node_list())
        exp = [{"label": a, "value": b} for a, b in wm.util_ranges.items()]
        ctx.check(wm.utilization_display_info() == exp, "utilization_display_info() is wrong")
        ctx.check(wm.util_display_options == exp, "util_display_options is wrong")
        for what, keys, f in (
            ("demand", self.dmds, wm.demand_sources_and_destinations), ("lsp", self.lsps, wm.lsp_sources_and_destinations)
        ):
            got = f()
            exp = (sorted({k[0] for k in keys}), sorted({k[1] for k in keys}))
            ctx.check(tuple(got) == exp, "%s sources and destinations are %s, expected %s", what, got, exp)
            for n in names:
                listed(ctx, "%s sources for %s" % (what, n), wm.get_sources(n, what), {k[0] for k in keys if k[1] == n})
                listed(ctx, "%s destinations for %s" % (what, n), wm.get_destinations(n, what), {k[1] for k in keys if k[0] == n})
        routed = sorted(k for k, x in self.used.items() if x is not None)
        for group in [[k] for k in routed] + [routed, []]:
            ii, ls = wm.find_demand_interfaces_and_lsps([self.dmds[k] for k in group])
            listed(ctx, "interfaces of demands %s" % group, [ikey(i) for i in ii], set().union(*[self.used[k][0] for k in group]))
            listed(ctx, "LSPs of demands %s" % group, [okey(x) for x in ls], set().union(*[self.used[k][1] for k in group]))
        for k, x in self.lsps.items():
            if unrouted(x):
                continue
            ii, ns = wm.get_lsp_interface_data(m, {"source": k[0], "dest": k[1], "name": k[2]})
            ctx.check([ikey(i) for i in ii] == lsp_edges(x), "get_lsp_interface_data of %s is wrong", k)
            listed(ctx, "nodes of LSP %s" % (k,), ns, {n for i in ii for n in (i.node_object.name, i.remote_node_object.name)})

    def shown_objects(self, ctx, what, options, keys):
        """options have to offer exactly the demands or LSPs in keys"""
        objs = self.dmds if what.startswith("demand") else self.lsps
        got = choices(options)
        listed(ctx, what, [dkey(p) for p, _ in got], keys)
        for p, o in got:
            ctx.check(o["label"] == repr(objs[dkey(p)]), "%s: %s is labelled %r", what, dkey(p), o["label"])

    def shown_ifs(self, ctx, what, options, keys):
        got = choices(options)
        listed(ctx, what, [ifkey(p) for p, _ in got], keys)
        for p, o in got:
            i = self.ifs[ifkey(p)]
            exp = {
                "source": i.node_object.name, "interface-name": i.name, "dest": i.remote_node_object.name,
                "circuit_id": i.circuit_id, "cost": i.cost,
            }
            ctx.check(p == exp and o["label"] == repr(i), "%s: %s is shown as %s", what, ifkey(p), o)

    # -- dropdowns and lists

    def selectors(self, mp, ctx):
        m = self.m
        for n in m.node_objects:
            opts = mp.one("interfaces-on-node.options", "find-node.value", n.name)
            self.shown_ifs(ctx, "interfaces of node %s" % n.name, opts, [k for k in self.ifs if k[0] == n.name])
        for what, keys in (("demand", self.dmds), ("lsp", self.lsps)):
            src, dst, found = "%s-source-callback" % what, "%s-destination-callback" % what, "find-%ss-callback.options" % what

            def ask(s, d, changed):
                r = mp.call(src + ".options", changed, **{src + ".value": s, dst + ".value": d})
                return [x["value"] for x in r[src + ".options"]], [x["value"] for x in r[dst + ".options"]], r[found]

            so, do, li = ask(None, None, None)
            ctx.check(so == sorted({k[0] for k in keys}), "%s sources offered: %s", what, so)
            ctx.check(do == sorted({k[1] for k in keys}), "%s destinations offered: %s", what, do)
            for s in sorted({k[0] for k in keys}):
                so, do, li = ask(s, None, src + ".value")
                ctx.check((so, do) == ([s], sorted({k[1] for k in keys if k[0] == s})), "%ss from %s: offered %s, %s", what, s, so, do)
                self.shown_objects(ctx, "%ss from %s" % (what, s), li, [k for k in keys if k[0] == s])
            for d in sorted({k[1] for k in keys}):
                so, do, li = ask(None, d, dst + ".value")
                ctx.check((so, do) == (sorted({k[0] for k in keys if k[1] == d}), [d]), "%ss to %s: offered %s, %s", what, d, so, do)
                self.shown_objects(ctx, "%ss to %s" % (what, d), li, [k for k in keys if k[1] == d])
            for s, d in sorted({k[:2] for k in keys}):
                so, do, li = ask(s, d, dst + ".value")
                ctx.check((so, do) == ([s], [d]), "%ss from %s to %s: offered %s, %s", what, s, d, so, do)
                self.shown_objects(ctx, "%ss from %s to %s" % (what, s, d), li, [k for k in keys if k[:2] == (s, d)])

    # -- selecting an element and what is listed for it

    def no_update_or(self, ctx, r, text, what):
        ctx.check(r is None or json.loads(r) == {"label": text, "value": ""}, "%s: the selection is %s", what, r)

    def selections(self, mp, ctx, el):
        wm = mp.wm
        for k, d in sorted(self.dmds.items()):
            v = wm.format_objects_for_display([d])[0]["value"]
            sel = []
            for via in ("interface-demand-callback.value", "find-demands-callback.value", "lsp-demand-callback.value"):
                sel.append(json.loads(mp.one("selected-demand-output.children", via, v)))
            exp = {"source": k[0], "dest": k[1], "name": k[2], "routed": self.used[k] is not None}
            ctx.check(all(s == exp for s in sel), "selected demand %s is shown as %s", k, sel)
            r = mp.call("demand-path-interfaces.options", "selected-demand-output.children", **{"selected-demand-output.children": json.dumps(exp)})
            ii, ls = self.used[k] or ((), ())
            # (without an update, what was listed for another demand would stay)
            ctx.check(r is not None, "the lists of interfaces and LSPs are not updated for demand %s", k)
            self.shown_ifs(ctx, "interfaces of demand %s" % (k,), r["demand-path-interfaces.options"], ii)
            self.shown_objects(ctx, "LSPs of demand %s" % (k,), r["demand-path-lsps.options"], ls)
        for k, x in sorted(self.lsps.items()):
            v = wm.format_objects_for_display([x])[0]["value"]
            sel = []
            for via in ("demand-path-lsps.value", "find-lsps-callback.value", "interface-lsp-callback.value"):
                sel.append(json.loads(mp.one("selected-lsp-output.children", via, v)))
            exp = {"source": k[0], "dest": k[1], "name": k[2], "routed": not unrouted(x)}
            ctx.check(all(s == exp for s in sel), "selected LSP %s is shown as %s", k, sel)
            r = mp.one("lsp-interface-callback.options", "selected-lsp-output.children", json.dumps(exp))
            ctx.check(r is not None, "the list of interfaces is not updated for LSP %s", k)
            self.shown_ifs(ctx, "interfaces of LSP %s" % (k,), r, () if unrouted(x) else lsp_edges(x))
            r = mp.one("lsp-demand-callback.options", "selected-lsp-output.children", json.dumps(exp))
            riders = [a for a, u in self.used.items() if u is not None and k in u[1]]
            self.shown_objects(ctx, "demands on LSP %s" % (k,), r, riders)
        edges = {(e["data"]["source"], e["data"]["interface-name"]): e["data"] for e in el if "source" in e["data"]}
        for k, i in sorted(self.ifs.items()):
            exp = {
                "source": k[0], "interface-name": k[1], "dest": i.remote_node_object.name, "circuit_id": str(i.circuit_id),
                "utilization %": i.utilization, "cost": i.cost,
            }
            v = wm.format_interfaces_for_display([i])[0]["value"]
            for via, value in (
                ("cytoscape-prototypes.selectedEdgeData", [edges[k]]), ("demand-path-interfaces.value", v),
                ("interfaces-on-node.value", v), ("lsp-interface-callback.value", v),
            ):
                got = json.loads(mp.one("selected-interface-output.children", via, value))
                got = dict(got, circuit_id=str(got.get("circuit_id")))
                ctx.check(got == exp, "selected interface %s is shown as %s (via %s)", k, got, via)
            sel = json.dumps(exp)
            opts = mp.one("interface-lsp-callback.options", "selected-interface-output.children", sel)
            on = [a for a, x in self.lsps.items() if not unrouted(x) and k in lsp_edges(x)]
            self.shown_objects(ctx, "LSPs on interface %s" % (k,), opts, on)
            opts = mp.one("interface-demand-callback.options", "selected-interface-output.children", sel)
            on = [a for a, u in self.used.items() if u is not None and k in u[0]]
            self.shown_objects(ctx, "demands on interface %s" % (k,), opts, on)
        # buttons and placeholders clear the selection, and nothing is listed then
        empty = {}
        for what, text, button, vias in (
            ("interface", wm.no_selected_interface_text, "clear-int-button", ("demand-path-interfaces", "interfaces-on-node", "lsp-interface-callback")),
            ("demand", wm.no_selected_demand_text, "clear-dmd-button", ("interface-demand-callback", "find-demands-callback", "lsp-demand-callback")),
            ("lsp", wm.no_selected_lsp_text, "clear-lsp-button", ("demand-path-lsps", "find-lsps-callback", "interface-lsp-callback")),
        ):
            out = "selected-%s-output.children" % what
            empty[what] = json.dumps({"label": text, "value": ""})
            got = mp.one(out, button + ".n_clicks", 1)
            ctx.check(got is not None and json.loads(got) == json.loads(empty[what]), "after %s the selection is %s", button, got)
            for via in vias:
                self.no_update_or(ctx, mp.one(out, via + ".value", ""), text, "no %s selected" % what)
        for out, sel in (
            ("interface-lsp-callback", "interface"), ("interface-demand-callback", "interface"), ("lsp-demand-callback", "lsp"),
            ("lsp-interface-callback", "lsp"), ("demand-path-interfaces", "demand"), ("demand-path-lsps", "demand"),
        ):
            for value in (empty[sel], None):
                ch = "selected-%s-output.children" % sel
                r = mp.call(out + ".options", ch, **{ch: value})
                if r is None and value is None:
                    continue  # nothing was listed before
                ctx.check(r is not None, "%s still offers what it did when the %s was selected", out, sel)
                opts = r[out + ".options"]
                ctx.check(not choices(opts), "%s offers %s although no %s is selected", out, opts, sel)
                for o in opts:
                    target = {
                        "interface-lsp-callback": "lsp", "interface-demand-callback": "demand", "lsp-demand-callback": "demand",
                        "lsp-interface-callback": "interface", "demand-path-interfaces": "interface", "demand-path-lsps": "lsp",
                    }[out]
                    r = mp.one("selected-%s-output.children" % target, out + ".value", o["value"])
                    self.no_update_or(ctx, r, json.loads(empty[target])["label"], "placeholder %r of %s" % (o["value"], out))

    # -- highlighting

    def highlight(self, mp, ctx, el):
        wm = mp.wm
        colors = sorted(set(wm.util_ranges.values()))
        ids = ("cytoscape-prototypes.selectedEdgeData", "utilization-dropdown-callback.value", "selected-demand-output.children",
               "selected-interface-output.children", "selected-lsp-output.children")

        def sheet(cols=colors, dmd=None, iface=None, lsp=None):
            changed = ids[2] if dmd else ids[3] if iface else ids[4] if lsp else ids[1]
            r = mp.call("cytoscape-prototypes.stylesheet", changed, **dict(zip(ids, ([], cols, dmd, iface, lsp))))
            return styles(r["cytoscape-prototypes.stylesheet"], el)

        base = sheet()
        none = sheet(cols=[])
        for c in colors:
            st = sheet(cols=[c])
            for k, i in self.ifs.items():
                e = ("edge",) + k
                ref = base if self.color(i.utilization) == c else none
                ctx.check(st[e] == ref[e], "with utilization %s selected, interface %s (%s) is shown as %s", c, k, i.utilization, st[e])
        if self.ifs:
            ctx.check(all(base[("edge",) + k] != none[("edge",) + k] for k in self.ifs), "the utilization selection has no effect")

        def changed(st):
            return {k for k in st if st[k] != base[k]}

        def rev(keys):
            return {ikey(self.ifs[k].get_remote_interface(self.m)) for k in keys}

        def ends(keys):
            return {n for k in keys for n in (k[0], self.ifs[k].remote_node_object.name)}

        for k, u in sorted(self.used.items()):
            info = json.dumps({"source": k[0], "dest": k[1], "name": k[2], "routed": u is not None})
            st = sheet(dmd=info)
            ii = u[0] if u else set()
            got = changed(st)
            listed(ctx, "highlighted for demand %s" % (k,), got, {("edge",) + x for x in ii | rev(ii)} | {("node", n) for n in ends(ii)})
            self.directed(ctx, st, base, ii, rev(ii), "demand %s" % (k,))
        for k, x in sorted(self.lsps.items()):
            info = json.dumps({"source": k[0], "dest": k[1], "name": k[2], "routed": not unrouted(x)})
            st = sheet(lsp=info)
            ii = set() if unrouted(x) else set(lsp_edges(x))
            listed(ctx, "highlighted for LSP %s" % (k,), changed(st), {("edge",) + y for y in ii | rev(ii)} | {("node", n) for n in ends(ii)})
            self.directed(ctx, st, base, ii, rev(ii), "LSP %s" % (k,))
        for k, i in sorted(self.ifs.items())[:6]:
            info = {
                "source": k[0], "interface-name": k[1], "dest": i.remote_node_object.name, "circuit_id": i.circuit_id,
                "utilization %": i.utilization, "cost": i.cost,
            }
            listed(ctx, "highlighted for interface %s" % (k,), changed(sheet(iface=json.dumps(info))), {("edge",) + k})
        st = sheet(
            dmd=json.dumps({"label": wm.no_selected_demand_text, "value": ""}),
            iface=json.dumps({"label": wm.no_selected_interface_text, "value": ""}),
            lsp=json.dumps({"label": wm.no_selected_lsp_text, "value": ""}),
        )
        ctx.check(not changed(st), "without a selection %s is highlighted", sorted(changed(st))[:5])

    def directed(self, ctx, st, base, fwd, back, what):
        """The edges in the direction of the path look alike, and different from those against it"""

        def delta(k):
            k = ("edge",) + k
            return json.dumps({a: b for a, b in st[k].items() if base[k].get(a) != b or a == "line-style"}, sort_keys=True)

        f, b = {delta(k) for k in fwd - back}, {delta(k) for k in back - fwd}
        ctx.check(len(f) <= 1 and len(b) <= 1 and not f & b, "the direction of %s is not clear: %s / %s", what, f, b)


# ------------------------------------------------------------------ console displays


def words(x):
    return " ".join(x.split())


def rows(text):
    return [words(l) for l in text.splitlines() if l.strip()]


class C29(StateProp):
    id = "C29"
    rule = (
        "the text printed by the five display calls and the representations after each update and change of a failure "
        "history, compared with the state read through the attributes; non-trivial: something is failed and a demand is "
        "routed, or a demand is not"
    )
    opts = dict(
        lsps=0.4, shortcuts=0.15, demands=(0, 6), nodes=(2, 7), ops=(0, 6), srlgs=0.2, blanks=False,
        op_weights=dict(fail_node=4, fail_if=6, rm_demand=2, fail_srlg=2, unfail_srlg=2),
    )
    shortcut_lsps = 0.1
    cases = {"quick": 12000, "thorough": 300000}

    def after_op(self, w, op, ctx):
        if w.spec.get("salt", 0) % 3 == 0:
            self.check_model(w.model, ctx)

    def check_state(self, w, v, ctx):
        self.check_model(v.model, ctx)

    def check_model(self, m, ctx):
        def out(name):
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                getattr(m, name)()
            return s.getvalue()

        ifs, nodes, dmds, lsps = list(m.interface_objects), list(m.node_objects), list(m.demand_objects), list(m.rsvp_lsp_objects)
        for call, value in (("display_interface_status", lambda i: str(i.failed)), ("display_interfaces_traffic", lambda i: repr(i.traffic))):
            got = rows(out(call))
            exp = [words(" ".join([i.node_object.name, i.name, i.remote_node_object.name, value(i)])) for i in ifs]
            ctx.check(sorted(got[1:]) == sorted(exp), "%s() shows %s instead of %s", call, sorted(got[1:]), sorted(exp))
        got = rows(out("display_node_status"))
        exp = [words("%s %s" % (n.name, n.failed)) for n in nodes]
        ctx.check(sorted(got[1:]) == sorted(exp), "display_node_status() shows %s instead of %s", sorted(got[1:]), sorted(exp))
        got, exp = rows(out("display_interface_objects")), [words(repr(i)) for i in ifs]
        ctx.check(sorted(got) == sorted(exp), "display_interface_objects() shows %s instead of %s", sorted(got), sorted(exp))
        got = sorted(words(x) for x in out("display_demand_paths").split("demand._key is"))
        exp = [""]
        for d in dmds:
            paths = [] if isinstance(d.path, str) else d.path
            exp.append(" ".join([repr(okey(d)), "Demand has %s paths:" % len(paths)] + [words(repr(p)) for p in paths]))
        ctx.check(got == sorted(exp), "display_demand_paths() shows %s instead of %s", got, sorted(exp))
        # representations name what they stand for
        ctx.check(
            [int(x) for x in re.findall(r": (\d+)", repr(m))] == [len(ifs), len(nodes), len(dmds), len(lsps)], "the model is represented as %r", m
        )
        for n in nodes:
            ctx.check(repr(n) == "Node(%r)" % n.name, "node %s is represented as %r", n.name, n)
        for i in ifs:
            for part in (repr(i.name), str(i.cost), str(i.capacity), repr(i.node_object), repr(i.remote_node_object), repr(i.circuit_id)):
                ctx.check(part in repr(i), "interface %s is represented as %r, without %s", ikey(i), i, part)
        for x in dmds + lsps:
            s, t, name = okey(x)
            for part in ["source = " + s, "dest = " + t, repr(name)] + ([str(x.traffic)] if hasattr(x, "traffic") else []):
                ctx.check(part in repr(x), "%s is represented as %r, without %s", okey(x), x, part)
        for c in m.circuit_objects:
            for i in (c.interface_a, c.interface_b):
                ctx.check(repr(i) in repr(c), "circuit %s is represented as %r", okey(c), c)
        for x in m.srlg_objects:
            ctx.check(x.name in repr(x), "SRLG %s is represented as %r", x.name, x)
        un = [d for d in dmds if isinstance(d.path, str)]
        if un:
            ctx.tag("unrouted demand")
        if any(i.failed for i in ifs):
            ctx.tag("failures")
        ctx.interesting(bool(un) or (any(i.failed for i in ifs) and len(dmds) > 0))
