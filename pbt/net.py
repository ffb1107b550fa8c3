"""A plain description of a network: configuration and failure state, and what each operation is
meant to do to it (the reference model of the histories)."""
import copy
import math


class Refused(Exception):
    """The operation has to be refused with a ModelException"""


class Inapplicable(Exception):
    """The operation does not apply in this state; the history goes on without it"""


def floor1(x):
    return math.floor(round(x * 10, 2)) / 10


class Edge:
    """One direction of a circuit: an interface"""

    __slots__ = ("id", "u", "v", "name", "cost", "cap", "rsvp", "pct", "up", "reservable")

    def __init__(self, id, u, v, name, cost, cap, rsvp, pct, up, reservable=None):
        self.id, self.u, self.v, self.name, self.cost = id, u, v, name, cost
        self.cap, self.rsvp, self.pct, self.up, self.reservable = cap, rsvp, pct, up, reservable

    @property
    def limit(self):
        """What LSPs can reserve: they do so in steps of 0.1"""
        return floor1(self.cap * self.pct / 100.0)

    def __repr__(self):
        return "%s->%s[%s]" % (self.u, self.v, self.name)


class Net:
    def __init__(self):
        self.perf = False
        self.nodes = {}  # name -> dict(lat, lon, sc, failed)
        self.cks = {}  # k -> dict(a, b, na, nb, ca, cb, cap, id, ra, rb, pa, pb, failed)
        self.demands = {}  # (s, d, n) -> traffic
        self.lsps = {}  # (s, d, n) -> dict(bw, mm)
        self.srlgs = {}  # n -> dict(failed, nodes, cks)

    @classmethod
    def from_spec(cls, spec):
        net = cls()
        net.perf = spec["cls"].endswith("perf")
        for x in spec["nodes"]:
            net.nodes[x["n"]] = dict(lat=x.get("lat", 0), lon=x.get("lon", 0), sc=bool(x.get("sc")) and not net.perf, failed=False)
        for c in spec["cks"]:
            net.cks[c["k"]] = dict(c, failed=False)
        for x in spec["demands"]:
            net.demands[(x["s"], x["d"], x["n"])] = x["t"]
        for x in spec["lsps"]:
            net.lsps[(x["s"], x["d"], x["n"])] = dict(bw=x["bw"], mm=x["mm"])
        for x in spec.get("srlgs", []):
            net.srlgs[x["n"]] = dict(failed=False, nodes=set(x["nodes"]), cks={k for k, _ in x["cks"]})
        return net

    def copy(self):
        return copy.deepcopy(self)

    # -- views

    def edges(self):
        out = {}
        for k, c in self.cks.items():
            out[(c["a"], c["na"])] = Edge(
                (c["a"], c["na"]), c["a"], c["b"], c["na"], c["ca"], c["cap"], c["ra"], c["pa"], not c["failed"]
            )
            out[(c["b"], c["nb"])] = Edge(
                (c["b"], c["nb"]), c["b"], c["a"], c["nb"], c["cb"], c["cap"], c["rb"], c["pb"], not c["failed"]
            )
        return out

    def if_key(self, k, side):
        c = self.cks[k]
        return (c["a"], c["na"]) if side == "a" else (c["b"], c["nb"])

    def held(self, k):
        """Does a failed SRLG hold the circuit down?"""
        return any(s["failed"] and k in s["cks"] for s in self.srlgs.values())

    def held_node(self, n):
        return any(s["failed"] and n in s["nodes"] for s in self.srlgs.values())

    def nodes_up(self, c):
        return not self.nodes[c["a"]]["failed"] and not self.nodes[c["b"]]["failed"]

    # -- operations

    def ck(self, k):
        if k not in self.cks:
            raise Inapplicable()
        return self.cks[k]

    def do(self, op):
        """Applies op to self; raises Refused (with self in the state the refusal leaves) or
        Inapplicable"""
        getattr(self, "op_" + op[0])(*op[1:])

    def op_update(self):
        pass

    op_validate = op_update

    def op_query(self, a, b, bw):
        if a not in self.nodes or b not in self.nodes or a == b:
            raise Inapplicable()

    def op_fail_if(self, k, side, via):
        self.ck(k)["failed"] = True

    def op_unfail_if(self, k, side, via):
        c = self.ck(k)
        if not self.nodes_up(c):
            if via in ("raise", "iface"):
                raise Refused()
            return
        if self.held(k):
            raise Refused()
        c["failed"] = False

    def op_fail_node(self, n):
        if n not in self.nodes:
            raise Inapplicable()
        self.nodes[n]["failed"] = True
        for c in self.cks.values():
            if n in (c["a"], c["b"]):
                c["failed"] = True

    def op_unfail_node(self, n):
        if n not in self.nodes:
            raise Inapplicable()
        if self.held_node(n):
            raise Refused()
        self.nodes[n]["failed"] = False
        for k, c in self.cks.items():
            if n in (c["a"], c["b"]) and self.nodes_up(c) and not self.held(k):
                c["failed"] = False

    def op_fail_srlg(self, s):
        if s not in self.srlgs:
            raise Inapplicable()
        g = self.srlgs[s]
        for n in g["nodes"]:
            self.op_fail_node(n)
        for k in g["cks"]:
            self.cks[k]["failed"] = True
        g["failed"] = True

    def op_unfail_srlg(self, s):
        if s not in self.srlgs:
            raise Inapplicable()
        g = self.srlgs[s]
        g["failed"] = False
        for n in sorted(g["nodes"]):
            if not self.held_node(n):
                self.nodes[n]["failed"] = False
        for n in sorted(g["nodes"]):
            if not self.held_node(n):
                self.op_unfail_node(n)
        for k in g["cks"]:
            if self.nodes_up(self.cks[k]) and not self.held(k):
                self.cks[k]["failed"] = False

    def op_srlg_add_node(self, s, n):
        if s not in self.srlgs or n not in self.nodes or self.srlgs[s]["failed"]:
            raise Inapplicable()
        self.srlgs[s]["nodes"].add(n)

    def op_srlg_add_if(self, s, k, side):
        if s not in self.srlgs or k not in self.cks or self.srlgs[s]["failed"]:
            raise Inapplicable()
        self.srlgs[s]["cks"].add(k)

    def op_add_srlg(self, s):
        if s in self.srlgs:
            raise Refused()
        self.srlgs[s] = dict(failed=False, nodes=set(), cks=set())

    def op_srlg_new_node(self, s, n):
        if n not in self.nodes:
            raise Inapplicable()
        if s not in self.srlgs:
            self.op_add_srlg(s)
        self.op_srlg_add_node(s, n)

    def op_srlg_new_if(self, s, k, side):
        self.ck(k)
        if s not in self.srlgs:
            self.op_add_srlg(s)
        self.op_srlg_add_if(s, k, side)

    def op_srlg_unknown(self, how, n, k, side, like):
        if n not in self.nodes or k not in self.cks:
            raise Inapplicable()
        raise Refused()

    def op_srlg_rm_node(self, s, n):
        if s not in self.srlgs or n not in self.srlgs[s]["nodes"]:
            raise Inapplicable()
        self.srlgs[s]["nodes"].remove(n)
        if self.held_node(n):
            raise Refused()
        self.nodes[n]["failed"] = False

    def op_srlg_rm_if(self, s, k, side):
        if s not in self.srlgs or k not in self.srlgs[s]["cks"]:
            raise Inapplicable()
        self.srlgs[s]["cks"].remove(k)
        if self.held(k):
            raise Refused()
        c = self.cks[k]
        if self.nodes_up(c):
            c["failed"] = False

    def op_add_demand(self, s, d, n, t):
        if s == d:
            raise Inapplicable()
        if s not in self.nodes or d not in self.nodes or (s, d, n) in self.demands:
            raise Refused()
        self.demands[(s, d, n)] = t

    def op_rm_demand(self, s, d, n):
        if (s, d, n) not in self.demands:
            raise Inapplicable()
        del self.demands[(s, d, n)]

    def op_set_traffic(self, s, d, n, t):
        if (s, d, n) not in self.demands:
            raise Inapplicable()
        self.demands[(s, d, n)] = t

    def op_add_lsp(self, s, d, n):
        if s == d:
            raise Inapplicable()
        if s not in self.nodes or d not in self.nodes or (s, d, n) in self.lsps:
            raise Refused()
        self.lsps[(s, d, n)] = dict(bw=None, mm=None)

    def op_rm_lsp(self, s, d, n):
        if (s, d, n) not in self.lsps:
            raise Inapplicable()
        del self.lsps[(s, d, n)]

    def op_set_mm(self, s, d, n, v):
        if (s, d, n) not in self.lsps:
            raise Inapplicable()
        self.lsps[(s, d, n)]["mm"] = None if v == -1 else v

    def op_set_bw(self, s, d, n, v):
        if (s, d, n) not in self.lsps:
            raise Inapplicable()
        self.lsps[(s, d, n)]["bw"] = v

    def op_set_cost(self, k, side, v):
        self.ck(k)["c" + side] = v

    def op_set_cap(self, k, v):
        self.ck(k)["cap"] = v

    def op_set_rsvp(self, k, side, v):
        self.ck(k)["r" + side] = v

    def op_set_pct(self, k, side, v):
        self.ck(k)["p" + side] = v

    def op_rename_if(self, k, side, name):
        c = self.ck(k)
        key = self.if_key(k, side)
        if name == key[1] or (key[0], name) in self.edges():
            raise Inapplicable()
        c["n" + side] = name

    def op_add_node(self, x):
        if x["n"] in self.nodes:
            raise Refused()
        self.nodes[x["n"]] = dict(lat=x.get("lat", 0), lon=x.get("lon", 0), sc=False, failed=False)

    def op_set_sc(self, n, v):
        if n not in self.nodes or self.perf:
            raise Inapplicable()
        self.nodes[n]["sc"] = v

    def op_add_list(self, cks, flaw):
        """add_network_interfaces_from_list with both interfaces of each circuit; nodes may be new"""
        new = []
        for x in cks:
            if x["a"] == x["b"] or x["k"] in self.cks or any(x["k"] == y["k"] or x["id"] == y["id"] for y in new):
                raise Inapplicable()
            if x["id"] in [c["id"] for c in self.cks.values()]:
                raise Inapplicable()
            pair = {x["a"], x["b"]}
            if self.perf and any({c["a"], c["b"]} == pair for c in list(self.cks.values()) + new):
                raise Inapplicable()
            new.append(x)
        keys = [(x["a"], x["na"]) for x in new] + [(x["b"], x["nb"]) for x in new]
        if len(set(keys)) != len(keys) or set(keys) & set(self.edges()):
            raise Refused()
        for x in new:
            for n in (x["a"], x["b"]):
                self.nodes.setdefault(n, dict(lat=0, lon=0, sc=False, failed=False))
        for x in new:
            c = {k: v for k, v in x.items() if k != "failed"}
            c.update(ra=True, rb=True, pa=100, pb=100)
            c["failed"] = bool(x.get("failed")) or not self.nodes_up(c)
            self.cks[x["k"]] = c

    def op_add_ck_unknown(self, x, side):
        if x["a"] not in self.nodes or x["k"] in self.cks:
            raise Inapplicable()
        raise Refused()

    def op_unknown(self, what, n, like):
        raise Refused()

    def op_add_ck(self, x):
        if x["a"] not in self.nodes or x["b"] not in self.nodes or x["a"] == x["b"] or x["k"] in self.cks:
            raise Inapplicable()
        if self.perf and any({c["a"], c["b"]} == {x["a"], x["b"]} for c in self.cks.values()):
            raise Inapplicable()
        e = self.edges()
        if (x["a"], x["na"]) in e or (x["b"], x["nb"]) in e:
            raise Refused()
        if not self.perf and (x["id"] is None or x["id"] in [c["id"] for c in self.cks.values()]):
            raise Refused()
        c = {k: v for k, v in x.items() if k not in ("failed", "short")}
        c.update(ra=True, rb=True, pa=100, pb=100)
        if x.get("short"):  # made with the defaults
            c.update(ca=1, cb=1, cap=1000)
        c["failed"] = bool(x.get("failed") and not x.get("short")) or not self.nodes_up(c)
        self.cks[x["k"]] = c


VALIDATING = {"add_list", "add_demand", "add_ck", "add_lsp", "add_node", "unfail_node", "unfail_if", "unfail_srlg", "validate"}
CLEAN = {"update", "validate", "query"}
