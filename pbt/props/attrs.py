"""Guards on attribute values: C24"""
from .. import gen
from ..core import Discard, Prop, Violation
from ..world import World, api, config

JUNK = [None, "", "5", "ten", "True", [], [5], {}, {"a": 1}]  # no numbers


def junk(rng):
    return rng.choice(JUNK)


def positive(rng):
    return rng.choice([1, 1, 2, 10, 100, rng.randint(1, 10 ** 6), rng.choice(gen.mined()[0] or [3])])


def fraction(rng):
    return rng.choice([0.5, 0.1, 1.5, 2.5, 99.9, 1e-3, 1000.25, rng.randint(1, 9999) / 10.0])


def number(rng):
    return rng.choice([0, 0.0, positive(rng), fraction(rng)])


def negative(rng):
    return -rng.choice([positive(rng), fraction(rng)])


# attribute -> ways to make values it accepts, ways to make values it refuses
VALUES = {
    "cost": ([positive], [lambda r: 0, lambda r: 0.0, negative, fraction, lambda r: float(positive(r)), junk]),
    "capacity": ([positive, fraction], [lambda r: 0, lambda r: 0.0, negative, junk]),
    "traffic": ([number], [negative, junk]),
    "lat": ([number, negative], [junk]),
    "lon": ([number, negative], [junk]),
    "flag": ([lambda r: r.random() < 0.5], [lambda r: r.choice([0, 1, 1.0, "False", -1, 2]), junk]),
    "sc": ([lambda r: r.choice([True, False, "True", "False"])], [lambda r: r.choice([0, 1, "true", "T", "yes", "FALSE", "F", ""]), lambda r: r.choice([None, [], {}, 0.0])]),
    "setup": ([number], [negative, junk]),
    "reserved": ([lambda r: round(number(r), 1), lambda r: -1 * r.randint(0, 50)], [junk]),
    "metric": ([positive, lambda r: -1], [lambda r: 0, lambda r: -r.randint(2, 100), fraction, lambda r: float(positive(r)), junk]),
}

# object kind -> attributes: name of the attribute, kind of its values
ATTRS = {
    "if": {"cost": "cost", "capacity": "capacity", "failed": "flag", "reserved_bandwidth": "reserved"},
    "node": {"lat": "lat", "lon": "lon", "failed": "flag", "igp_shortcuts_enabled": "sc"},
    "dmd": {"traffic": "traffic"},
    "lsp": {"setup_bandwidth": "setup", "manual_metric": "metric"},
    "srlg": {"failed": "flag"},
}
MAKE = {
    "if": [("cost", "cost"), ("capacity", "capacity")],
    "node": [("lat", "lat"), ("lon", "lon")],
    "dmd": [("traffic", "traffic")],
}


def value(rng, kind, good):
    return rng.choice(VALUES[kind][0 if good else 1])(rng)


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


class C24(Prop):
    id = "C24"
    rule = (
        "sequences of valid and invalid constructions, assignments and editing calls with values of all kinds (boundaries, "
        "fractions, negatives, text, None, containers); after each the attributes of all objects are compared with a shadow; "
        "non-trivial: the sequence has accepted as well as refused values"
    )
    cases = {"quick": 60000, "thorough": 1500000}

    def gen(self, rng, i):
        steps = []
        for _ in range(rng.randint(3, 25)):
            good = rng.random() < 0.45
            x = rng.random()
            if x < 0.7:
                obj = rng.choice(["if", "if", "node", "node", "dmd", "lsp", "lsp", "srlg"])
                attr = rng.choice(sorted(ATTRS[obj]))
                steps.append(["set", obj, rng.randrange(2), attr, value(rng, ATTRS[obj][attr], good), good])
            elif x < 0.85:
                obj = rng.choice(["if", "if", "node", "dmd"])
                attr, kind = rng.choice(MAKE[obj])
                steps.append(["make", obj, attr, value(rng, kind, good), good])
            elif x < 0.95:
                attr = rng.choice(["traffic", "cost_a", "cost_b", "capacity", "list cost", "list capacity"])
                kind = attr.split(" ")[-1].split("_")[0]
                steps.append(["call", attr, value(rng, kind, good), good])
            else:
                steps.append(["configured", negative(rng) if not good else number(rng), good])
        return {"salt": rng.randrange(1 << 30), "cls": rng.choice(["flex", "perf", "legacy_flex", "legacy_perf"]), "steps": steps}

    def normalise(self, spec):
        arity = {"set": 6, "make": 5, "call": 4, "configured": 3}
        spec["steps"] = [s for s in spec["steps"] if s and len(s) == arity.get(s[0], -1)]
        for s in spec["steps"]:
            # shrinking a value must not change on which side of the guard it is
            kind = ATTRS[s[1]][s[3]] if s[0] == "set" else None
            if s[0] == "make":
                kind = dict(MAKE[s[1]]).get(s[2])
            elif s[0] == "call":
                kind = s[1].split(" ")[-1].split("_")[0]
            elif s[0] == "configured":
                kind = "traffic"
            if accepts(kind, s[-2]) != s[-1]:
                return None
        return spec

    def run(self, spec, ctx):
        self.build(spec["cls"])
        shadow = self.read()
        for s in spec["steps"]:
            good = s[-1]
            ctx.tag(("valid " if good else "invalid ") + (s[1] + "." + s[3] if s[0] == "set" else s[0] + " " + str(s[1] if s[0] != "configured" else "setup bandwidth")))
            try:
                getattr(self, "do_" + s[0])(*s[1:-1])
            except Violation:
                raise
            except Exception as e:
                if good:
                    raise Violation("%s was refused: %r" % (s, e), "refused " + str(s[1]))
            else:
                if not good:
                    raise Violation("%s was accepted" % (s,), "accepted " + str(s[1]))
                if s[0] == "set":
                    self.follow(shadow, *s[1:-1])
            now = self.read()
            ctx.evals += len(now)
            for k in shadow:
                if not same(shadow[k], now[k]):
                    raise Violation("after %s, %s of %s is %r instead of %r" % (s, k[2], k[:2], now[k], shadow[k]), "changed " + k[2])
        good = {s[-1] for s in spec["steps"]}
        ctx.interesting(len(good) == 2)

    def build(self, cls):
        m = api()
        from ..world import model_class

        self.nodes = [m.Node("A", 1, 2), m.Node("B", -3, 4.5)]
        a, b = self.nodes
        self.ifs = [m.Interface("x", 10, 100, a, b, 1), m.Interface("y", 10, 100, b, a, 1)]
        self.dmds = [m.Demand(a, b, 5, "d0"), m.Demand(b, a, 7.5, "d1")]
        self.lsps = [m.RSVP_LSP(a, b, "l0"), m.RSVP_LSP(b, a, "l1")]
        for x in self.lsps:
            x.setup_bandwidth = 1
        self.model = model_class(cls)(set(self.ifs), set(self.nodes), set(self.dmds), set(self.lsps))
        self.model.add_srlg("s0")
        self.model.add_srlg("s1")
        self.srlgs = [self.model.get_srlg_object("s0"), self.model.get_srlg_object("s1")]
        # editing calls and configured bandwidths are tried on a model of their own
        c, d, e = m.Node("C"), m.Node("D"), m.Node("E")
        self.lsp = m.RSVP_LSP(c, d, "l", 5)
        self.other = model_class(cls)(
            {m.Interface("x", 10, 100, c, d, 1), m.Interface("y", 10, 100, d, c, 1)}, {c, d, e}, {m.Demand(c, d, 5)}, {self.lsp}
        )
        self.other.update_simulation()
        self.count = 0

    def objects(self, obj):
        return {"if": self.ifs, "node": self.nodes, "dmd": self.dmds, "lsp": self.lsps, "srlg": self.srlgs}[obj]

    def read(self):
        out = {}
        for obj in ATTRS:
            for i, x in enumerate(self.objects(obj)):
                for a in ATTRS[obj]:
                    out[(obj, i, a)] = getattr(x, a)
        return out

    def follow(self, shadow, obj, i, attr, v):
        if obj == "node" and attr == "igp_shortcuts_enabled":
            v = v in (True, "True")
        if obj == "lsp" and attr == "manual_metric" and v == -1:
            v = "not set"
        if obj == "if" and attr == "failed":
            if v is False and (self.nodes[0].failed or self.nodes[1].failed):
                v = True  # documented: an interface on a failed node is failed
            if v:
                shadow[(obj, i, "reserved_bandwidth")] = 0
        shadow[(obj, i, attr)] = v

    def do_set(self, obj, i, attr, v):
        setattr(self.objects(obj)[i], attr, v)

    def do_make(self, obj, attr, v):
        m = api()
        a, b = self.nodes
        if obj == "if":
            kw = {"cost": 10, "capacity": 100}
            kw[attr] = v
            x = m.Interface("z", kw["cost"], kw["capacity"], a, b, 2)
        elif obj == "node":
            kw = {"lat": 0, "lon": 0}
            kw[attr] = v
            x = m.Node("Z", **kw)
        else:
            x = m.Demand(a, b, v, "q")
        if not same(getattr(x, attr), v):
            raise Violation("%s made with %s %r reads %r" % (obj, attr, v, getattr(x, attr)), "made " + attr)

    def do_call(self, attr, v):
        m = self.other
        before = config(m)
        self.count += 1
        n = "add%d" % self.count
        a, b = "C" if self.count % 2 else "D", "E%d" % self.count
        kw = {"cost_a": 10, "cost_b": 10, "capacity": 100}
        kw[attr.split(" ")[-1]] = v
        try:
            if attr == "traffic":
                m.add_demand("C", "D", v, n)
                got = m.get_demand_object("C", "D", n).traffic
            elif attr.startswith("list"):
                rows = []
                for x, y, k in ((a, b, "a"), (b, a, "b")):
                    row = {"name": n + k, "cost": 10, "capacity": 100, "node": x, "remote_node": y, "circuit_id": n, "failed": False}
                    if k == "b" or attr == "list capacity":
                        row[attr.split(" ")[-1]] = v
                    rows.append(row)
                m.add_network_interfaces_from_list(rows)
                got = getattr(m.get_interface_object(n + "b", b), attr.split(" ")[-1])
            else:
                m.add_node(api().Node(b))
                before = config(m)
                m.add_circuit(
                    m.get_node_object(a), m.get_node_object(b), n + "a", n + "b", kw["cost_a"], kw["cost_b"], kw["capacity"], False, n
                )
                i = m.get_interface_object(n + ("b" if attr == "cost_b" else "a"), b if attr == "cost_b" else a)
                got = i.capacity if attr == "capacity" else i.cost
        except Violation:
            raise
        except Exception:
            if config(m) != before:
                raise Violation("a refused call with %s %r changed the model" % (attr, v), "call changed")
            raise
        if not same(got, v):
            raise Violation("added with %s %r, reads %r" % (attr, v, got), "call " + attr)

    def do_configured(self, v):
        """a configured setup bandwidth is refused at the latest when the LSP signals"""
        m = api()
        m_ok = self.lsp.configured_setup_bandwidth
        try:
            self.lsp.configured_setup_bandwidth = v
            self.other.update_simulation()
            x = m.RSVP_LSP(self.lsp.source_node_object, self.lsp.dest_node_object, "probe", v)
            x.setup_bandwidth = 1
        except Exception:
            self.lsp.configured_setup_bandwidth = m_ok
            self.other.update_simulation()
            raise
        if not same(self.lsp.configured_setup_bandwidth, v):
            raise Violation("configured setup bandwidth %r reads %r" % (v, self.lsp.configured_setup_bandwidth), "configured")


def accepts(kind, v):
    """The guard as documented"""
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind == "cost":
        return isinstance(v, int) and not isinstance(v, bool) and v >= 1
    if kind == "capacity":
        return num and v > 0
    if kind in ("traffic", "setup"):
        return num and v >= 0
    if kind in ("lat", "lon", "reserved"):
        return num
    if kind == "flag":
        return isinstance(v, bool)
    if kind == "sc":
        return v in (True, False, "True", "False") and not num
    if kind == "metric":
        return isinstance(v, int) and not isinstance(v, bool) and (v >= 1 or v == -1)
    raise AssertionError(kind)
