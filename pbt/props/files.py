"""Model files: C16, C17"""
import random

from .. import gen
from ..core import Discard, Prop, Violation
from ..net import Net
from ..world import okey, build_objects, config, diff, drop_ids, expected_config, load_text, model_class, results
from .base import View, igp_part, lsps_deterministic, no_baseline
from .state import tame

HEAD = {
    "if": ["node_object_name", "remote_node_object_name", "name", "cost", "capacity", "circuit_id", "rsvp_enabled", "percent_reservable_bandwidth"],
    "node": ["name", "lon", "lat", "igp_shortcuts_enabled(default=False)"],
    "dmd": ["source", "dest", "traffic", "name"],
    "lsp": ["source", "dest", "name", "configured_setup_bw", "manual_metric"],
}
TABLES = [("if", "INTERFACES_TABLE"), ("node", "NODES_TABLE"), ("dmd", "DEMANDS_TABLE"), ("lsp", "RSVP_LSP_TABLE")]


def file_network(rng, **opt):
    """A network whose numbers can be written in a model file"""
    o = dict(lsps=0.6, ops=(0, 0), legacy=0.15, rsvp_off=0.4, pct=0.5, big=0.01, demands=(0, 6), nodes=(2, 7), contention=0.2, bw=0.35, mm=0.35, blanks=False)
    o.update(opt)
    if rng.random() < 0.3:
        o["shortcuts"] = 0.7
    spec = gen.text_ids(gen.network(rng, **o))
    for c in spec["cks"]:
        c["cap"] = int(c["cap"])
        c["id"] = str(c["id"])
        if c["ra"] and c["rb"] and rng.random() < 0.5:
            c["pa"] = c["pb"] = 100
    for d in spec["demands"]:
        d["t"] = int(d["t"])
    if rng.random() < 0.2:
        spec["demands"] = spec["demands"][:1]
    return spec


class Text:
    """The rows of the tables of a model file that describes a network. Every choice of notation
    comes from a generator of its own, so that shrinking the network leaves the others alone."""

    def __init__(self, spec):
        self.spec = spec
        self.salt = spec["salt"]
        self.perf = spec["cls"].endswith("perf")
        self.net = Net.from_spec(spec)
        self.features = set()
        self.rows = {"if": [], "node": [], "dmd": [], "lsp": []}
        self.build()

    def rng(self, *what):
        return random.Random("%s/%s" % (self.salt, repr(what)))

    def trim(self, rng, row, defaults, least):
        """row with trailing optional columns that have their default left blank or left out"""
        row = list(row)
        blank = [False] * len(row)
        for i in range(least, len(row)):
            if defaults[i] is not None and row[i] in defaults[i] and rng.random() < 0.5:
                row[i] = ""
                blank[i] = True
                self.features.add("blank column")
        while len(row) > least and blank[len(row) - 1] and rng.random() < 0.6:
            row.pop()
            self.features.add("missing column")
        return row

    def build(self):
        net = self.net
        style = self.rng("style")
        omit = style.random() < 0.5
        dups = style.random() < 0.4
        linked = set()
        for k, c in net.cks.items():
            for s, x, y, n, co, r, p in (("a", c["a"], c["b"], c["na"], c["ca"], c["ra"], c["pa"]), ("b", c["b"], c["a"], c["nb"], c["cb"], c["rb"], c["pb"])):
                g = self.rng("if", k, s)
                linked |= {x, y}
                rsvp = g.choice(["True", "True", "T", "true"]) if r else g.choice(["False", "F", "false"])
                pct = str(p) if g.random() < 0.7 else str(float(p))
                row = [x, y, n, str(co), str(c["cap"])] + ([] if self.perf else [str(c["id"])])
                m = len(row)
                row = self.trim(g, row + [rsvp, pct], [None] * m + [("True", "T", "true"), ("100", "100.0")], m)
                self.rows["if"].append(row)
                if self.perf and dups and g.random() < 0.15:
                    d = list(row)
                    d[3], d[4] = str(co + 7), str(c["cap"] * 2)
                    self.rows["if"].append(("dup", row, d))
        for n, d in net.nodes.items():
            g = self.rng("node", n)
            plain = (d["lat"], d["lon"]) == (0, 0) and not d["sc"]
            if n in linked and plain and omit and g.random() < 0.7:
                self.features.add("implied node")
                continue
            if n in linked:
                self.features.add("explicit and implied node")
            row = [n, str(d["lon"]), str(d["lat"])]
            if not self.perf or d["sc"]:
                row.append("True" if d["sc"] else "False")
            self.rows["node"].append(self.trim(g, row, [None, ("0",), ("0",), ("False",)], 1))
            if dups and g.random() < 0.2:
                # the last row of a node counts
                self.rows["node"].append(("before", self.rows["node"][-1], [n, str(d["lon"] + 7), str(d["lat"] - 3)] + (["True"] if g.random() < 0.3 else [])))
        for (s, t, n), x in net.demands.items():
            g = self.rng("dmd", s, t, n)
            row = [s, t, str(x), "" if n == "none" and g.random() < 0.5 else n]
            if row[3] == "":
                self.features.add("unnamed demand")
            self.rows["dmd"].append(row)
            if dups and g.random() < 0.2:
                self.rows["dmd"].append(("dup", row, [s, t, str(x + 9), n]))
        for (s, t, n), x in net.lsps.items():
            g = self.rng("lsp", s, t, n)
            bw = "" if x["bw"] is None else (str(x["bw"]) if g.random() < 0.7 else str(float(x["bw"])))
            row = [s, t, n, bw, "" if x["mm"] is None else str(x["mm"])]
            row = self.trim(g, row, [None, None, None, ("",), ("",)], 3)
            self.rows["lsp"].append(row)
            if dups and g.random() < 0.2:
                self.rows["lsp"].append(("dup", row, [s, t, n, "3", "17"]))
        for t in self.rows:
            self.order(t)

    def order(self, t):
        g = self.rng("order", t)
        rows = [r for r in self.rows[t] if isinstance(r, list)]
        if g.random() < 0.6:
            g.shuffle(rows)
        for r in self.rows[t]:
            if isinstance(r, tuple):
                at = next(i for i, x in enumerate(rows) if x is r[1])
                rows.insert(g.randint(0, at) if r[0] == "before" else g.randint(at + 1, len(rows)), r[2])
                self.features.add("duplicate " + t)
        self.rows[t] = rows

    def render(self, skip=()):
        g = self.rng("layout")
        eol = g.choice(["\n"] * 5 + ["\r\n", "\r\n", "\r"])
        bom = g.random() < 0.15
        head = g.random() < 0.8
        lsp_table = bool(self.rows["lsp"]) or g.random() < 0.4
        lines = []
        tables = list(TABLES)
        if g.random() < 0.25:
            g.shuffle(tables)
            self.features.add("order of the tables")
        for t, name in tables:
            if name in skip or (t == "lsp" and not lsp_table):
                continue
            lines.append(name)
            h = [x for x in HEAD[t] if not (self.perf and x in ("circuit_id",))]
            if self.perf and t == "node":
                h = h[:3]
            lines.append("\t".join(h if head else h[:3]))
            lines += ["\t".join(r) for r in self.rows[t]]
            lines += [""] * g.choice([1, 1, 1, 2, 3])
        tail = g.choice(["one", "one", "none", "many"])
        while lines and lines[-1] == "":
            lines.pop()
        end = {"one": eol, "none": "", "many": eol * 3}[tail]
        if not lsp_table:
            self.features.add("no LSP table")
        if eol != "\n":
            self.features.add("line ends %r" % eol)
        if bom:
            self.features.add("byte-order mark")
        self.features.add("end of file: " + tail)
        return eol.join(lines) + end, bom


class C16(Prop):
    id = "C16"
    rule = (
        "random networks written as model files in random notations (rows in any order, columns blank or missing, duplicate "
        "rows, implied nodes, line ends, byte-order marks, blank lines), loaded and compared with the description and, "
        "simulated, with the same network built through the objects; non-trivial: some default, duplicate or implied element "
        "is involved"
    )
    cases = {"quick": 40000, "thorough": 800000}

    def gen(self, rng, i):
        return file_network(rng)

    def normalise(self, spec):
        return gen.normalise(spec)

    def run(self, spec, ctx):
        t = Text(spec)
        text, bom = t.render()
        m = load_text(spec["cls"], text, bom)
        for f in t.features:
            ctx.tag(f)
        ctx.interesting(bool(t.features - {"end of file: one", "end of file: none", "end of file: many"}))
        ctx.check(type(m) is model_class(spec["cls"]), "%s loads a %s", spec["cls"], type(m).__name__)
        self.compare(m, t.net, "after loading", ctx)
        self.identity(m, ctx)
        m.update_simulation()
        self.compare(m, t.net, "after the first update", ctx)
        o = build_objects(t.net, spec["cls"], random.Random(spec["salt"]))
        o.update_simulation()
        vm, vo = View(m), View(o)
        rm, ro = results(m), results(o)
        if lsps_deterministic(vm) and lsps_deterministic(vo):
            x, y = no_baseline(rm), no_baseline(ro)
            ctx.tag("results compared")
        else:
            x, y = igp_part(vm, rm), igp_part(vo, ro)
            ctx.tag("IGP results compared")
        d = diff(tame(x), tame(y))
        ctx.check(d is None, "the loaded model simulates differently: %s", d)

    def compare(self, m, net, when, ctx):
        got, exp = config(m), expected_config(net)
        if net.perf:
            got, exp = drop_ids(got), drop_ids(exp)
        d = diff(got, exp)
        ctx.check(d is None, "%s: %s", when, d)
        for x in m.demand_objects:
            ctx.check(x.path == "Unrouted" or when != "after loading", "demand %s is routed before an update", okey(x))

    def identity(self, m, ctx):
        """the objects of the model refer to each other, not to copies"""
        nodes = {id(n) for n in m.node_objects}
        for i in m.interface_objects:
            ctx.check(id(i.node_object) in nodes and id(i.remote_node_object) in nodes, "interface %s is on a node object outside of the model", okey(i))
        for x in list(m.demand_objects) + list(m.rsvp_lsp_objects):
            ctx.check(
                id(x.source_node_object) in nodes and id(x.dest_node_object) in nodes, "%s refers to a node object outside of the model", okey(x)
            )


FLAWS = [
    "no table", "no table", "cost blank", "cost text", "cost low", "capacity blank", "capacity text", "capacity low", "short row", "no circuit id",
    "blank circuit id", "blank circuit", "circuit id once", "circuit id thrice", "shared circuit id", "traffic blank", "traffic text", "traffic negative", "demand node", "lsp node",
    "no counterpart", "no counterpart", "wrong remote",
]


class C17(Prop):
    id = "C17"
    rule = (
        "well-formed model files of random networks with one flaw planted at a random place (missing table, missing, "
        "non-numeric or out-of-range value, unknown node, bad circuit ids, missing counterpart); each intact file has to load "
        "and the flawed one to be refused; non-trivial: the flaw is in a file with at least two circuits"
    )
    cases = {"quick": 60000, "thorough": 800000}

    def gen(self, rng, i):
        spec = file_network(rng, demands=(1, 5), lsps=0.8)
        spec["flaw"] = [rng.choice(FLAWS), rng.randrange(1 << 20)]
        return spec

    def normalise(self, spec):
        return gen.normalise(spec)

    def run(self, spec, ctx):
        kind, seed = spec["flaw"]
        t = Text(spec)
        text, bom = t.render()
        if not t.rows["if"]:
            raise Discard()
        good = load_text(spec["cls"], text, bom)
        ctx.check(good is not None, "the intact file is not loaded")
        skip, late = self.plant(t, kind, random.Random(seed))
        ctx.tag(kind)
        text, bom = t.render(skip)
        ctx.interesting(len(spec["cks"]) > 1)
        try:
            m = load_text(spec["cls"], text, bom)
        except Exception:
            ctx.evals += 1
            ctx.tag("refused when loaded")
            return
        if not late:
            raise Violation("a file with flaw '%s' is accepted: %s" % (kind, describe(m)), "accepted " + kind)
        try:
            m.update_simulation()
        except Exception:
            ctx.evals += 1
            ctx.tag("refused by the first update")
            return
        raise Violation("a model loaded from a file with flaw '%s' is simulated: %s" % (kind, describe(m)), "simulated " + kind)

    def plant(self, t, kind, rng):
        """Puts the flaw into the rows. Returns the tables to leave out and whether it may be found
        only by the first update"""
        perf = t.perf
        rows = t.rows["if"]
        dup = len({(r[0], r[2]) for r in rows}) != len(rows)

        def fresh_rows():
            # a flaw in a duplicate row that is ignored anyway would not count
            if dup:
                seen, out = set(), []
                for r in rows:
                    if (r[0], r[2]) not in seen:
                        seen.add((r[0], r[2]))
                        out.append(r)
                t.rows["if"] = out
                return out
            return rows

        rows = fresh_rows()
        row = rng.choice(rows)
        if kind == "no table":
            return [rng.choice(["INTERFACES_TABLE", "NODES_TABLE", "DEMANDS_TABLE"])], False
        text = rng.choice(["x", "ten", "1,5", "10G", "--", "None", "1O"])
        if kind.startswith("cost"):
            row[3] = {"blank": "", "text": text, "low": rng.choice(["0", "-1", "-10"])}[kind[5:]]
        elif kind.startswith("capacity"):
            row[4] = {"blank": "", "text": text, "low": rng.choice(["0", "-1", "-100"])}[kind[9:]]
        elif kind == "short row":
            del row[rng.randint(1, 4):]
        elif kind in ("no circuit id", "blank circuit id", "blank circuit", "circuit id once", "circuit id thrice", "shared circuit id"):
            if perf:
                raise Discard()
            cid = row[5]
            if kind == "no circuit id":
                del row[5:]
            elif kind == "blank circuit id":
                row[5] = ""
            elif kind == "blank circuit":
                for r in rows:
                    if r[5] == cid:
                        r[5] = ""
            elif kind == "circuit id once":
                row[5] = cid + "-other"
            else:
                others = [r for r in rows if r[5] != cid]
                if not others:
                    raise Discard()
                other = rng.choice(others)[5]
                for r in others:
                    if r[5] == other:
                        r[5] = cid
                        if kind == "circuit id thrice":
                            break
        elif kind.startswith("traffic"):
            d = rng.choice(self.first(t, "dmd"))
            d[2] = {"blank": "", "text": text, "negative": rng.choice(["-1", "-10", "-100"])}[kind[8:]]
        elif kind in ("demand node", "lsp node"):
            d = rng.choice(self.first(t, "dmd" if kind == "demand node" else "lsp"))
            n = rng.randint(0, 1)
            x = rng.choice(["no such node", d[n] + "x", d[n].lower() + "?", "", d[n] + " "])
            if x in t.net.nodes:
                raise Discard()
            d[n] = x
        elif kind == "no counterpart":
            t.rows["if"].remove(row)
            return [], True
        elif kind == "wrong remote":
            # the row faces another node than the one its counterpart is on
            others = sorted(set(t.net.nodes) - {row[0], row[1]})
            if perf:
                others = [x for x in others if not any({r[0], r[1]} == {x, row[0]} for r in rows)]
            if not others:
                raise Discard()
            row[1] = rng.choice(others)
            return [], True
        return [], False

    def first(self, t, table):
        key = (0, 1, 3) if table == "dmd" else (0, 1, 2)
        seen, out = set(), []
        for r in t.rows[table]:
            k = tuple(r[i] or "none" for i in key)
            if k not in seen:
                seen.add(k)
                out.append(r)
        t.rows[table] = out
        if not out:
            raise Discard()
        return out


def describe(m):
    return "%s nodes, %s interfaces, %s demands, %s LSPs" % (len(m.node_objects), len(m.interface_objects), len(m.demand_objects), len(m.rsvp_lsp_objects))
