"""Configuration and failure state, histories, isolation: C09-C11, C18, C19, C26-C28"""
import os
import random
import shutil
import tempfile

from .. import gen
from ..core import forked, Discard, Prop, Violation
from ..net import CLEAN, VALIDATING, Inapplicable, Net, Refused
from ..world import (
    okey, World, api, build_objects, config, diff, drop_ids, dmd_paths, expected_config, file_text, ikey, is_if, is_lsp, item_key, load_text,
    make_interfaces, model_class, num, results, unrouted,
)
from .base import StateProp, View, igp_part, lsps_deterministic, no_baseline


def fresh(net, cls, order=None):
    """A new model with the configuration and failure state of net"""
    model = build_objects(net, cls, order)
    model.validate_model()
    for n, s in net.srlgs.items():
        model.add_srlg(n)
        for x in sorted(s["nodes"]):
            model.get_node_object(x).add_to_srlg(n, model)
        for k in sorted(s["cks"]):
            a = net.if_key(k, "a")
            model.get_interface_object(a[1], a[0]).add_to_srlg(n, model)
    for n, s in net.srlgs.items():
        if s["failed"]:
            model.fail_srlg(n)
    for n, x in net.nodes.items():
        if x["failed"]:
            model.fail_node(n)
    for k, c in net.cks.items():
        if c["failed"]:
            a = net.if_key(k, "a")
            model.fail_interface(a[1], a[0])
    return model


class C09(StateProp):
    id = "C09"
    rule = (
        "a history of 3-22 edits, failures, repairs, updates and queries, compared with a freshly built model with the "
        "same final configuration; non-trivial: at least two updates with a change in between, and some demand or LSP "
        "changed its routing on the way"
    )
    opts = dict(lsps=0.55, contention=0.25, srlgs=0.2, shortcuts=0.25, demands=(1, 7), ops=(3, 22), mm=0.3, bw=0.3,
        op_weights=dict(fail_srlg=1, unfail_srlg=1, set_sc=1, add_lsp=2, rm_lsp=2, rm_demand=2, add_demand=2, set_mm=2, set_bw=1.5))
    op_share = 1.0
    shortcut_lsps = 0.15
    cases = {"quick": 16000, "thorough": 600000}

    def run(self, spec, ctx):
        w = World(spec)
        w.start(spec)
        seen = set()
        for op in spec["ops"]:
            if w.apply(op):
                ctx.tag("op " + op[0])
                if op[0] == "update":
                    self.again(w, ctx)
                    seen.add(routing(w.model))
        w.update()
        seen.add(routing(w.model))
        got = self.again(w, ctx)
        v = View(w.model)
        other = fresh(w.net, w.cls, random.Random(spec["salt"]))
        other.update_simulation()
        v2 = View(other)
        exp = results(other)
        if lsps_deterministic(v) and lsps_deterministic(v2):
            ctx.tag("full comparison")
            d = diff(tame(no_baseline(got)), tame(no_baseline(exp)))
        else:
            ctx.tag("IGP comparison")
            d = diff(tame(igp_part(v, got)), tame(igp_part(v2, exp)))
        ctx.check(d is None, "after the history the results differ from those of a fresh model: %s", d)
        d = diff(drop_ids(config(w.model)), drop_ids(config(other)))
        ctx.check(d is None, "after the history the configuration differs from that of a fresh model: %s", d)
        ctx.interesting(len(seen) > 1)

    def again(self, w, ctx):
        """a second update changes nothing; returns the results"""
        r = results(w.model)
        w.update()
        s = results(w.model)
        v = View(w.model)
        if lsps_deterministic(v):
            d = diff(tame(no_baseline(s)), tame(no_baseline(r)))
        else:
            d = diff(tame(igp_part(v, s)), tame(igp_part(v, r)))
        ctx.check(d is None, "a second update changes the results: %s", d)
        return s


def routing(model):
    return (
        tuple(sorted((okey(d), repr(dmd_paths(d) and sorted(dmd_paths(d)))) for d in model.demand_objects))
        + tuple(sorted((okey(x), "U" if unrouted(x) else repr([ikey(i) for i in x.path["interfaces"]])) for x in model.rsvp_lsp_objects))
    )


def tame(r):
    """Sums of floats depend on the order of summation: numbers are compared to 0.02"""

    def f(x):
        if isinstance(x, float):
            return Approx(x)
        if isinstance(x, (tuple, list)):
            return type(x)(f(y) for y in x)
        if isinstance(x, dict):
            return {k: f(y) for k, y in x.items()}
        return x

    return f(r)


class Approx:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Approx) and abs(self.x - o.x) <= 0.021 + 1e-9 * abs(self.x)

    def __hash__(self):
        return 0

    def __repr__(self):
        return repr(self.x)


# ------------------------------------------------------------------ failure state machines


def partitions(m, net, ctx):
    """The views of what is failed agree with the state"""
    up = {i for i, e in net.edges().items() if e.up}
    allk = set(net.edges())
    failed = [ikey(i) for i in m.get_failed_interface_objects()]
    unfailed = [ikey(i) for i in m.get_unfailed_interface_objects()]
    ctx.check(sorted(failed) == sorted(allk - up), "failed interfaces are listed as %s, expected %s", sorted(failed), sorted(allk - up))
    ctx.check(sorted(unfailed) == sorted(up), "interfaces that are not failed are listed as %s, expected %s", sorted(unfailed), sorted(up))
    fn = sorted(n for n, x in net.nodes.items() if x["failed"])
    un = sorted(n for n, x in net.nodes.items() if not x["failed"])
    a = sorted(n.name for n in m.get_failed_node_objects())
    b = sorted(n.name for n in m.get_non_failed_node_objects())
    ctx.check(a == fn, "failed nodes are listed as %s, expected %s", a, fn)
    ctx.check(b == un, "nodes that are not failed are listed as %s, expected %s", b, un)
    for i in m.interface_objects:
        r = i.get_remote_interface(m)
        ctx.check(r.failed == i.failed, "%s and its remote %s disagree on being failed", ikey(i), ikey(r))


class MachineProp(StateProp):
    """Runs a history in strict mode and compares the configuration after every operation"""

    strict = True
    op_share = 1.0

    def run(self, spec, ctx):
        w = World(spec, strict=True)
        if w.net.perf and not w.updated:
            w.update()  # it has no circuits to compare before
        clean = results(w.model) if w.start(spec) else None
        self.compare(w, None, ctx)
        for op in spec["ops"]:
            before = expected_config(w.net)
            fine = not w.dirty
            if not w.apply(op):
                continue
            ctx.tag("op " + op[0])
            after = expected_config(w.net)
            if spec["salt"] % 2 or w.look():
                self.compare(w, op, ctx)
                self.extra(w, op, ctx)
            if op[0] == "update":
                clean = results(w.model)
            elif before == after and fine and op[0] not in CLEAN:
                # nothing changed: neither does any result
                now = results(w.model)
                d = diff(now, clean)
                ctx.check(d is None, "%s changes nothing but disturbs the results: %s", op, d)
                ctx.tag("no-op " + op[0])
                w.dirty = w.unsafe = False
            elif before != after:
                self.changed(op, ctx)
            if w.dirty is False:
                clean = results(w.model)
        w.update()
        self.compare(w, ["final update"], ctx)

    def changed(self, op, ctx):
        ctx.interesting()

    def compare(self, w, op, ctx):
        got, exp = config(w.model), expected_config(w.net)
        if w.net.perf:
            got, exp = drop_ids(got), drop_ids(exp)
        d = diff(got, exp)
        ctx.check(d is None, "after %s: %s", op, d)
        partitions(w.model, w.net, ctx)

    def extra(self, w, op, ctx):
        pass


FAIL_OPS = dict(
    {k: 0.0 for k in gen.OP_WEIGHTS},
    update=3, fail_if=8, unfail_if=8, fail_node=5, unfail_node=6, add_ck=1, query=0.5, validate=0.5,
)


class C10(MachineProp):
    id = "C10"
    rule = (
        "histories of 3-25 failures and repairs of interfaces and nodes (some with SRLGs), compared with a reference "
        "state machine after each operation; non-trivial: an operation changes the failure state"
    )
    opts = dict(lsps=0.4, srlgs=0.15, demands=(0, 4), ops=(3, 25), nodes=(2, 6),
        op_weights=dict(FAIL_OPS, fail_srlg=0.7, unfail_srlg=0.7))
    cases = {"quick": 28000, "thorough": 600000}


class C11(MachineProp):
    id = "C11"
    rule = (
        "1-4 SRLGs that share nodes and circuits; histories of 4-28 SRLG, node and interface failures and repairs and "
        "membership changes, compared with a reference state machine; non-trivial: an SRLG is failed or restored"
    )
    opts = dict(lsps=0.3, srlgs=1.0, demands=(0, 4), ops=(4, 28), nodes=(2, 6),
        op_weights=dict(FAIL_OPS, fail_if=3, unfail_if=3, fail_node=2.5, unfail_node=2.5, fail_srlg=8, unfail_srlg=8,
            srlg_add_node=2, srlg_add_if=2.5, srlg_rm_node=2, srlg_rm_if=2.5, add_srlg=1.2, srlg_new_node=0.8, srlg_new_if=0.8, srlg_unknown=0.8))
    cases = {"quick": 14000, "thorough": 600000}

    def changed(self, op, ctx):
        ctx.interesting(op[0] in ("fail_srlg", "unfail_srlg", "srlg_rm_if", "srlg_rm_node"))

    def extra(self, w, op, ctx):
        m = w.model
        for s in m.srlg_objects:
            ctx.check(m.get_srlg_object(s.name) is s, "get_srlg_object(%r) returns another SRLG", s.name)
            for i in s.interface_objects:
                ctx.check(s in i.srlgs, "%s is in SRLG %s but does not list it", ikey(i), s.name)
            for i in m.interface_objects:
                ctx.check((s in i.srlgs) == (i in s.interface_objects), "%s and SRLG %s disagree on membership", ikey(i), s.name)
            for n in m.node_objects:
                ctx.check((s in n.srlgs) == (n in s.node_objects), "%s and SRLG %s disagree on membership", n.name, s.name)


# ------------------------------------------------------------------ validation


MUTATIONS = [
    ("none", 3), ("one-sided failed", 3), ("lost interface", 2), ("capacity", 2.5), ("duplicate interface", 2), ("duplicate node", 1.5),
    ("parallel in perf", 2), ("shortcut in perf", 1.5), ("circuit id", 2), ("three ends", 1),
]


class C18(Prop):
    id = "C18"
    rule = (
        "a consistent model, or one with exactly one inconsistency of 8 kinds put in at construction or later, half of them with failed circuits and nodes; validation "
        "and update have to accept or refuse it; non-trivial: the model is inconsistent or has a one-sided failed circuit"
    )
    cases = {"quick": 60000, "thorough": 600000}

    def gen(self, rng, i):
        spec = gen.network(rng, lsps=0.4, demands=(0, 4), shortcuts=0.2, nodes=(2, 7), ops=(0, 0))
        spec["mut"] = [gen.wchoice(rng, MUTATIONS), rng.randrange(1 << 20), rng.random() < 0.5, rng.random() < 0.5]
        spec["down"] = []
        if spec["mut"][0] != "one-sided failed" and rng.random() < 0.5:
            p = rng.choice([0.2, 0.5, 1])
            spec["down"] += [["if", c["k"]] for c in spec["cks"] if rng.random() < p]
            spec["down"] += [["node", x["n"]] for x in spec["nodes"] if rng.random() < p / 4]
        spec["fresh"] = rng.random() < 0.3
        if spec["cls"].endswith("perf") and rng.random() < 0.4:
            spec["idnone"] = rng.choice([True, "dup", "mix"])
        return spec

    def normalise(self, spec):
        return gen.normalise(spec)

    def run(self, spec, ctx):
        kind, pick, late, by_update = spec["mut"]
        rng = random.Random(pick)
        net = Net.from_spec(spec)
        m = build_objects(net, spec["cls"], None, spec.get("idnone") if net.perf else None)
        if not spec.get("fresh") or spec["down"]:
            ctx.check(m.validate_model() is not False, "validate_model returned False")
        else:
            ctx.tag("not validated before")
        if late:
            m.update_simulation()
        for what, x in spec.get("down", []):
            if what == "node" and x in net.nodes:
                m.fail_node(x)
            elif what == "if" and x in net.cks:
                m.fail_interface(net.cks[x]["na"], net.cks[x]["a"])
            ctx.tag("elements are down")
        if late:
            m.update_simulation()
        before = config(m)
        bad, names, undo = self.mutate(kind, rng, m, net, ctx)
        ctx.tag(kind if bad is not None else "not applicable: " + kind)
        if bad is None:
            bad = False
        if kind == "one-sided failed" and late and m.rsvp_lsp_objects:
            by_update = True  # the reservations of LSPs on the circuit need an update first
        call = m.update_simulation if by_update else m.validate_model
        err = None
        try:
            call()
        except api().ModelException as e:
            err = e
        if bad:
            ctx.interesting()
            ctx.check(err is not None, "%s accepts a model with the inconsistency '%s' at %s", "update" if by_update else "validation", kind, names)
            text = str(err)
            ctx.check(len(text) > 10, "the exception for '%s' reports nothing: %r", kind, text)
            for n in names:
                plain = n.isascii() and all(c.isalnum() or c in "-_. " for c in n)  # others may be escaped
                ctx.check(not plain or n in text, "the exception for '%s' at %s does not name it: %s", kind, n, text[:200])
            # still refused the second time, and by the other call
            for again in (m.validate_model, m.update_simulation):
                try:
                    again()
                except api().ModelException:
                    continue
                raise Violation("%s at %s is refused only once" % (kind, names), "refused once")
            undo()
            m.update_simulation()
            m.validate_model()
            d = diff(drop_ids(config(m)), drop_ids(before))
            ctx.check(d is None, "after the inconsistency is repaired: %s", d)
            return
        ctx.check(err is None, "a consistent model (%s) is refused: %s", kind, str(err)[:200])
        if kind == "one-sided failed" and names:
            ctx.interesting()
            for i in m.interface_objects:
                if ikey(i) in names:
                    ctx.check(i.failed is True, "%s of a one-sided failed circuit is not failed", ikey(i))
                else:
                    ctx.check(i.failed is False, "%s is failed", ikey(i))
            if not by_update:
                m.update_simulation()
            for i in m.interface_objects:
                if ikey(i) in names:
                    ctx.check(i.failed is True and i.traffic == "Down", "%s of a one-sided failed circuit: failed %s, traffic %s", ikey(i), i.failed, i.traffic)
            for d in m.demand_objects:
                for p in dmd_paths(d) or []:
                    for x in p:
                        ctx.check(x[1:] not in names, "demand %s uses %s of a one-sided failed circuit", okey(d), x[1:])
            for x in m.rsvp_lsp_objects:
                if not unrouted(x):
                    for i in x.path["interfaces"]:
                        ctx.check(ikey(i) not in names, "LSP %s uses %s of a one-sided failed circuit", okey(x), ikey(i))

    def mutate(self, kind, rng, m, net, ctx):
        """returns (inconsistent?, names the report has to mention, undo)"""
        A = api()
        ifs = sorted(m.interface_objects, key=ikey)
        nodes = {n.name: n for n in m.node_objects}
        perf = net.perf
        if kind == "none":
            return False, [], None
        if kind == "shortcut in perf":
            n = nodes[rng.choice(sorted(nodes))]
            old = n.igp_shortcuts_enabled
            n.igp_shortcuts_enabled = True
            if not perf:
                return False, [], None
            return True, [n.name], lambda: setattr(n, "igp_shortcuts_enabled", old)
        if kind == "duplicate node":
            n = rng.choice(sorted(nodes))
            x = A.Node(n, nodes[n].lat + 1, nodes[n].lon)
            m.node_objects.add(x)

            def undo():
                m.node_objects = {y for y in m.node_objects if y is not x}

            return True, [], undo
        if not ifs:
            return None, [], None
        i = rng.choice(ifs)
        r = i.get_remote_interface(m) if not perf else next(
            x for x in ifs if x.node_object.name == i.remote_node_object.name and x.remote_node_object.name == i.node_object.name
        )
        if kind == "one-sided failed":
            i.failed = True
            return False, [ikey(i), ikey(r)], None
        if kind == "lost interface":
            m.interface_objects.remove(i)
            return True, [r.node_object.name, i.node_object.name], lambda: m.interface_objects.add(i)
        if kind == "capacity":
            old = i.capacity
            i.capacity = old + rng.choice([1, 0.5, 100])
            return True, [i.name, i.node_object.name], lambda: setattr(i, "capacity", old)
        if kind == "duplicate interface":
            # a second circuit whose one end has the name of an interface of the node
            others = [n for n in sorted(nodes) if n != i.node_object.name]
            if perf:
                busy = {x.remote_node_object.name for x in ifs if x.node_object.name == i.node_object.name}
                others = [n for n in others if n not in busy]
            if not others:
                return None, [], None
            o = nodes[rng.choice(others)]
            cap = rng.choice([i.capacity, 77])
            x = A.Interface(i.name, 1, cap, i.node_object, o, 7001)
            y = A.Interface("dup-end", 1, cap, o, i.node_object, 7001)
            if rng.random() < 0.3:
                x.failed = y.failed = True
            m.interface_objects |= {x, y}

            def undo():
                m.interface_objects = {z for z in m.interface_objects if z is not x and z is not y}

            return True, [i.name, i.node_object.name], undo
        if kind == "parallel in perf":
            if not perf:
                x = A.Interface("par-a", 1, 50, i.node_object, i.remote_node_object, 7002)
                y = A.Interface("par-b", 1, 50, i.remote_node_object, i.node_object, 7002)
                m.interface_objects |= {x, y}
                return False, [], None
            x = A.Interface("par-a", 1, i.capacity, i.node_object, i.remote_node_object, 7002)
            y = A.Interface("par-b", 1, i.capacity, i.remote_node_object, i.node_object, 7002)
            if i.failed and rng.random() < 0.5:
                x.failed = y.failed = True
            m.interface_objects |= {x, y}

            def undo():
                m.interface_objects = {z for z in m.interface_objects if z is not x and z is not y}

            return True, [i.node_object.name, i.remote_node_object.name], undo
        if kind == "circuit id":
            if perf:
                return None, [], None
            old = i.circuit_id
            i.circuit_id = 9999
            return True, [], lambda: setattr(i, "circuit_id", old)
        if kind == "three ends":
            if perf:
                return None, [], None
            x = A.Interface("third", 1, i.capacity, i.node_object, i.remote_node_object, i.circuit_id)
            m.interface_objects.add(x)

            def undo():
                m.interface_objects = {z for z in m.interface_objects if z is not x}

            return True, [], undo
        raise AssertionError(kind)


# ------------------------------------------------------------------ editing

UNKNOWN = ["node", "if", "if node", "ckt", "demand", "lsp", "rename", "fail_if", "unfail_if", "add_demand s", "add_demand d",
           "add_lsp s", "add_lsp d", "unfail_node", "fail_node"]


class C19(StateProp):
    id = "C19"
    rule = (
        "histories of 3-16 adds (40% of them duplicates of one key), renames, lookups of unknown elements and interface "
        "lists; the whole configuration, the getters and the earlier results are compared after each; non-trivial: an "
        "element is added and another one refused"
    )
    strict = True
    opts = dict(lsps=0.4, srlgs=0.3, demands=(0, 4), nodes=(2, 6), shortcuts=0.1)
    cases = {"quick": 14000, "thorough": 600000}

    def gen(self, rng, i):
        spec = gen.network(rng, **dict(self.opts, ops=(0, 0)))
        kinds = [("add_node", 2), ("add_ck", 4), ("add_demand", 3), ("add_lsp", 3), ("add_srlg", 1.5), ("rename_if", 2), ("add_list", 2.5),
                 ("unknown", 2), ("add_ck_unknown", 1), ("update", 2), ("fail_node", 1), ("unfail_node", 0.5), ("fail_if", 1)]
        for _ in range(rng.randint(3, 16)):
            op = self.edit(rng, spec, gen.wchoice(rng, kinds))
            if op:
                spec["ops"].append(op)
        return gen.normalise(spec)

    def edit(self, rng, spec, kind):
        ops = spec["ops"]
        names = [x["n"] for x in spec["nodes"]] + [p[1]["n"] for p in ops if p[0] == "add_node"]
        n = len(ops)
        dup = rng.random() < 0.4
        cks = spec["cks"] + [p[1] for p in ops if p[0] == "add_ck"]
        if kind == "unknown":
            return [kind, rng.choice(UNKNOWN), rng.choice(names), rng.choice(gen.NEAR)]
        if kind == "add_node":
            name = rng.choice(names) if dup else rng.choice(["new%d" % n, "n-%d" % n, str(90 + n), gen.near(rng.choice(names), rng.choice(gen.NEAR[1:]))])
            return [kind, {"n": name, "lat": rng.choice([0, 4]), "lon": rng.choice([0, 1.5])}]
        if kind in ("add_demand", "add_lsp"):
            have = [(x["s"], x["d"], x["n"]) for x in spec["demands" if kind == "add_demand" else "lsps"]]
            have += [tuple(p[1:4]) for p in ops if p[0] == kind]
            if dup and have:
                s, d, nm = rng.choice(have)
            elif have and rng.random() < 0.5:
                # shares two of three parts of the key with an existing one
                s, d, nm = rng.choice(have)
                j = rng.randrange(3)
                s, d, nm = (rng.choice(names) if j == 0 else s), (rng.choice(names) if j == 1 else d), (rng.choice(["e%d" % n, gen.near(nm, rng.choice(gen.NEAR[1:]))]) if j == 2 else nm)
            else:
                s, d, nm = rng.choice(names), rng.choice(names), rng.choice(["none", "e%d" % n])
            if s == d:
                return None
            return [kind, s, d, nm] + ([gen.traffic(rng)] if kind == "add_demand" else [])
        if kind == "add_srlg":
            have = [s["n"] for s in spec["srlgs"]] + [p[1] for p in ops if p[0] == kind]
            if have and rng.random() < 0.2:
                return [kind, gen.near(rng.choice(have), rng.choice(gen.NEAR[1:]))]
            return [kind, rng.choice(have) if dup and have else "group%d" % n]
        if kind in ("add_ck", "add_ck_unknown", "add_list"):
            def one(j):
                c = {"k": "%s%d.%d" % (kind, n, j), "a": rng.choice(names), "b": rng.choice(names), "na": "if-%d-%d-a" % (n, j), "nb": "if-%d-%d-b" % (n, j),
                     "ca": rng.randint(1, 9), "cb": rng.randint(1, 9), "cap": rng.choice([10, 0.5, 40, 1000]), "id": 2000 + 10 * n + j,
                     "ra": True, "rb": True, "pa": 100, "pb": 100}
                if rng.random() < 0.3:
                    c["failed"] = rng.random() < 0.7
                elif kind == "add_ck" and rng.random() < 0.2:
                    c["short"] = True
                if kind == "add_list" and rng.random() < 0.4:
                    c["b"] = "listed%d" % rng.randint(n, n + 1)
                return c

            c = [one(j) for j in range(rng.randint(1, 3) if kind == "add_list" else 1)]
            if dup and cks:
                o = rng.choice(cks)
                j = rng.choice(["a", "b", "id"] if kind == "add_ck" else ["a", "b"])
                x = rng.choice(c)
                if j == "a":
                    x["a"], x["na"] = rng.choice([(o["a"], o["na"]), (o["b"], o["nb"])])
                elif j == "b":
                    x["b"], x["nb"] = rng.choice([(o["a"], o["na"]), (o["b"], o["nb"])])
                else:
                    x["id"] = o["id"]
            elif kind == "add_ck" and rng.random() < (0.4 if spec["cls"].endswith("perf") else 0.1):
                c[0]["id"] = None
            if kind == "add_list":
                return [kind, c, ""] if all(x["a"] != x["b"] for x in c) else None
            if kind == "add_ck_unknown":
                return [kind, c[0], rng.choice("ab")]
            return [kind, c[0]] if c[0]["a"] != c[0]["b"] else None
        return gen.gen_op(rng, spec, dict(gen.DEFAULT, op_weights=dict({k: 0 for k in gen.OP_WEIGHTS}, **{kind: 1})))

    def run(self, spec, ctx):
        w = World(spec, strict=True)
        w.update()
        added = refused = False
        for op in spec["ops"]:
            if w.unsafe and op[0] in VALIDATING:
                w.update()
            kinds = {i: id(i) for s in (w.model.node_objects, w.model.interface_objects, w.model.demand_objects, w.model.rsvp_lsp_objects) for i in s}
            look = spec["salt"] % 2 or w.look()  # also histories in which nothing is read for several operations
            net = w.net.copy()
            if look:
                r0, c0 = results(w.model), config(w.model)
            if not w.apply(op):
                continue
            if not look:
                ctx.tag("not looked at")
                continue
            same = expected_config(net) == expected_config(w.net)
            ctx.tag("op %s%s" % (op[0], " refused" if same and op[0] not in CLEAN else ""))
            if same and op[0] not in CLEAN and not op[0].startswith(("fail", "unfail")):
                refused = True
                d = diff(config(w.model), c0)
                ctx.check(d is None, "the refused %s changed the model: %s", op, d)
                d = diff(results(w.model), r0)
                ctx.check(d is None, "the refused %s changed the results: %s", op, d)
            got, exp = config(w.model), expected_config(w.net)
            if w.net.perf:
                got, exp = drop_ids(got), drop_ids(exp)
            d = diff(got, exp)
            ctx.check(d is None, "after %s: %s", op, d)
            if op[0].startswith("add_") and not same:
                added = True
                r1 = results(w.model)
                for sec in r0:
                    d = diff({k: r1[sec].get(k) for k in r0[sec]}, r0[sec])
                    ctx.check(d is None, "%s changed the results of other elements: %s", op, d)
            self.getters(w, ctx, op)
            if op[0] == "rename_if":
                w.update()
                self.renamed(w, op, r0, ctx)
        w.update()
        self.getters(w, ctx, "the final update")
        self.usable(w, ctx)
        ctx.interesting(added and refused)

    def getters(self, w, ctx, op):
        m, net = w.model, w.net
        for n in net.nodes:
            x = m.get_node_object(n)
            ctx.check(x in m.node_objects and x.name == n and any(x is y for y in m.node_objects), "after %s: get_node_object(%r) returns %r", op, n, x)
        for k in net.edges():
            x = m.get_interface_object(k[1], k[0])
            ctx.check(ikey(x) == k and any(x is y for y in m.interface_objects), "after %s: get_interface_object returns %r for %s", op, x, k)
            ctx.check(x in m.interface_objects, "after %s: %s is not found in interface_objects", op, k)
            for o in (x.node_object, x.remote_node_object):
                ctx.check(any(o is y for y in m.node_objects), "after %s: interface %s refers to a node object that is not the model's", op, k)
        for k in net.demands:
            x = m.get_demand_object(*k)
            ctx.check(okey(x) == k and any(x is y for y in m.demand_objects), "after %s: get_demand_object(%s) returns %r", op, k, x)
            if k[2] == "none":
                ctx.check(m.get_demand_object(k[0], k[1]) is x, "after %s: get_demand_object(%s) without name", op, k)
        for k in net.lsps:
            x = m.get_rsvp_lsp(*k)
            ctx.check(okey(x) == k and any(x is y for y in m.rsvp_lsp_objects), "after %s: get_rsvp_lsp(%s) returns %r", op, k, x)
        for n in net.srlgs:
            ctx.check(m.get_srlg_object(n).name == n, "after %s: get_srlg_object(%r)", op, n)

    def renamed(self, w, op, r0, ctx):
        key = w.net.if_key(op[1], op[2])
        i = w.model.get_interface_object(op[3], key[0])
        ctx.check(i in w.model.interface_objects, "the renamed interface %s is not found in the model", key)
        ckt = w.model.get_circuit_object_from_interface(op[3], key[0])
        ctx.check(i in (ckt.interface_a, ckt.interface_b), "the renamed interface %s has the circuit %r", key, ckt)

    def usable(self, w, ctx):
        """every circuit can be failed, unfailed and queried under its present names"""
        m = w.model
        for k, c in sorted(w.net.cks.items()):
            if not c["failed"] and w.net.nodes_up(c) and not w.net.held(k):
                m.fail_interface(c["na"], c["a"])
                ctx.check(m.get_interface_object(c["nb"], c["b"]).failed, "failing %s does not fail its remote interface", c["na"])
                m.update_simulation()
                m.unfail_interface(c["nb"], c["b"])
                ctx.check(not m.get_interface_object(c["na"], c["a"]).failed, "unfailing %s does not unfail its remote interface", c["nb"])
                break


# ------------------------------------------------------------------ circuits


class C26(StateProp):
    id = "C26"
    rule = (
        "networks with parallel links and histories of added, failed and renamed circuits, circuit ids of several types "
        "(none in part of the PerformanceModels); non-trivial: two circuits share a node pair, or circuits were added"
    )
    opts = dict(lsps=0.2, srlgs=0.1, demands=(0, 3), nodes=(2, 7), op_weights=dict(add_ck=5, rename_if=3, set_cap=2))
    op_share = 0.7
    cases = {"quick": 21000, "thorough": 600000}

    def run(self, spec, ctx):
        w = World(spec)
        w.model.validate_model()
        self.check_state(w, None, ctx)
        for op in spec["ops"]:
            if w.apply(op):
                ctx.tag("op " + op[0])
                if op[0] in ("update", "validate", "add_ck"):
                    self.check_state(w, None, ctx)
        w.update()
        self.check_state(w, None, ctx)

    def check_state(self, w, v, ctx):
        m, net = w.model, w.net
        ckts = list(m.circuit_objects)
        exp = sorted(tuple(sorted((net.if_key(k, "a"), net.if_key(k, "b")))) for k in net.cks)
        got = sorted(tuple(sorted(ikey(i) for i in c.get_circuit_interfaces(m))) for c in ckts)
        d = diff({"circuits": got}, {"circuits": exp})
        ctx.check(d is None, "the circuits do not partition the interfaces: %s", d)
        seen = {}
        for c in ckts:
            a, b = c.get_circuit_interfaces(m)
            ctx.check(a is c.interface_a and b is c.interface_b, "get_circuit_interfaces of %r", c)
            for i in (a, b):
                ctx.check(any(i is x for x in m.interface_objects), "circuit interface %s is not the model's", ikey(i))
            ctx.check(
                a.node_object.name == b.remote_node_object.name and b.node_object.name == a.remote_node_object.name,
                "circuit of %s and %s, which do not face each other", ikey(a), ikey(b),
            )
            ctx.check(a.circuit_id == b.circuit_id == c.circuit_id(), "circuit %s %s: ids %r %r %r", ikey(a), ikey(b), a.circuit_id, b.circuit_id, c.circuit_id())
            ctx.check(a.circuit_id not in seen, "circuit id %r is used by two circuits", a.circuit_id)
            seen[a.circuit_id] = c
        ids = m.all_interface_circuit_ids
        ctx.check(set(ids) == set(seen), "all_interface_circuit_ids is %s, the circuits have %s", ids, set(seen))
        if not net.perf:
            for k, c in net.cks.items():
                ctx.check(c["id"] in seen, "no circuit with the id %r", c["id"])
        other = {}
        for k, c in net.cks.items():
            other[(c["a"], c["na"])], other[(c["b"], c["nb"])] = (c["b"], c["nb"]), (c["a"], c["na"])
        for i in m.interface_objects:
            r = i.get_remote_interface(m)
            ctx.check(ikey(r) == other[ikey(i)], "remote interface of %s is %s, expected %s", ikey(i), ikey(r), other[ikey(i)])
            ctx.check(r.get_remote_interface(m) is i, "the remote of the remote of %s is another interface", ikey(i))
            c1 = m.get_circuit_object_from_interface(i.name, i.node_object.name)
            ctx.check(i in (c1.interface_a, c1.interface_b), "the circuit of %s is %r", ikey(i), c1)
            ctx.check(c1 is m.get_circuit_object_from_interface(r.name, r.node_object.name), "%s and its remote have different circuits", ikey(i))
            ctx.check(i.get_circuit_object(m) is c1, "get_circuit_object of %s", ikey(i))
        names = sorted(net.nodes)
        edges = net.edges()
        for a in names:
            for b in names:
                have = sorted(k for k, e in edges.items() if (e.u, e.v) == (a, b))
                got = m.get_interface_object_from_nodes(a, b)
                if net.perf:
                    ctx.check((got is None) == (not have), "interface from %s to %s: %r, expected %s", a, b, got, have)
                    ctx.check(got is None or [ikey(got)] == have, "interface from %s to %s: %r, expected %s", a, b, got, have)
                    continue
                ctx.check(sorted(ikey(i) for i in got) == have, "interfaces from %s to %s: %r, expected %s", a, b, got, have)
                if len(have) > 1:
                    ctx.interesting()
                for cid in sorted(seen, key=repr)[:12]:
                    x = m.get_interface_object_from_nodes(a, b, circuit_id=cid)
                    want = [k for k in have if m.get_interface_object(k[1], k[0]).circuit_id == cid]
                    ctx.check(sorted(ikey(i) for i in x) == want, "interfaces from %s to %s with the id %r: %r, expected %s", a, b, cid, x, want)
        if w.applied:
            ctx.interesting(any(o[0] == "add_ck" for o in w.applied))


# ------------------------------------------------------------------ isolation


# queries whose answers contain no sums of numbers
SHARP = {
    "node interfaces", "interfaces", "adjacent", "orphan", "orphans", "source", "dest", "unrouted", "failed interfaces", "failed nodes", "lsp groups",
    "demand groups", "interface demands", "interface lsps", "lsp demands", "from nodes", "get interface", "remote",
}


class C27(Prop):
    id = "C27"
    rule = (
        "two models in one process (often with the same names; built by constructors, with some object sets left out, or "
        "loaded from files, even the same one), edited and simulated in turns; the snapshot of the one that is not touched must not change; "
        "non-trivial: both models were edited after the other was simulated"
    )
    cases = {"quick": 4000, "thorough": 400000}
    opts = dict(lsps=0.5, srlgs=0.3, demands=(0, 5), nodes=(2, 6), ops=(2, 8), shortcuts=0.2,
        op_weights=dict(fail_srlg=1, unfail_srlg=1, add_srlg=1, srlg_new_node=1, add_node=2, add_demand=2, add_lsp=2, add_ck=2))

    def gen(self, rng, i):
        build = rng.choice(["twin", "load", "same file", "empty"])
        o = dict(self.opts)
        if build in ("load", "same file"):
            o.update(blanks=False, srlgs=0.0)
        a = gen.network(rng, **o)
        b = gen.network(rng, **o) if rng.random() < 0.5 and build != "same file" else None
        if build in ("load", "same file"):
            for s in (a, b):
                if s is not None:
                    gen.text_ids(s)
                    for c in s["cks"]:
                        c["cap"], c["id"] = int(c["cap"]), str(c["id"])
                    for d in s["demands"]:
                        d["t"] = int(d["t"])
        return {"salt": a["salt"], "a": a, "b": b, "build": build, "turns": [rng.choice("ab") for _ in range(10)]}

    def normalise(self, spec):
        spec["a"] = gen.normalise(spec["a"])
        if spec["b"] is not None:
            spec["b"] = gen.normalise(spec["b"])
            if spec["b"] is None:
                return None
        return spec if spec["a"] is not None else None

    isolated = True

    def snap(self, w):
        m = w.model
        r = {"config": config(m), "results": results(m), "circuits": sorted(okey(c) for c in m.circuit_objects)}
        if self.deep:
            r["answers"] = sorted((name, repr(answer(f()))) for name, f in queries(m, random.Random(1)))
        return r

    def outcome(self, w):
        """What the history of a model led to, as far as nothing random influences it"""
        m = w.model
        v = View(m)
        if not lsps_deterministic(v):
            return {"config": drop_ids(config(m)), "part": igp_part(v, results(m))}
        ask = sorted(queries(m, random.Random(1)), key=lambda x: x[0])
        ns = sorted(n.name for n in m.node_objects)
        pairs = [(a, b) for a in ns[:4] for b in ns[-3:] if a != b]
        ans = {}
        for name, f in ask:
            if name in SHARP:
                ans.setdefault(name, []).append(repr(answer(f())))
        return {
            "config": drop_ids(config(m)),
            "results": no_baseline(results(m)),
            "metrics": {okey(x): (x.effective_metric(m), x.topology_metric(m)) for x in m.rsvp_lsp_objects},
            "answers": {k: sorted(x) for k, x in ans.items()},
            "costs": {(a, b): m.get_shortest_path(a, b)["cost"] for a, b in pairs},
        }

    def alone(self, t, s, spec):
        """The outcome of the same history in a process where no other model exists"""
        w = self.make(t, s, spec)
        w.update()
        todo = list(s["ops"])
        for x in spec["turns"]:
            if x == t:
                for _ in range(3):
                    if todo:
                        w.apply(todo.pop(0))
                w.update()
        return self.outcome(w)

    def make(self, t, s, spec):
        w = World(s)
        if s["srlgs"]:
            return w
        if t == "b" and spec["build"] == "load":
            w.model = load_text(w.cls, file_text(w.net, w.net.perf))
        if spec["build"] == "same file":
            path = os.path.join(self.dir, "model.csv")
            if not os.path.exists(path):
                with open(path, "w", encoding="utf-8") as f:
                    f.write(file_text(w.net, w.net.perf))
            w.model = model_class(w.cls).load_model_file(path)
        return w

    def run(self, spec, ctx):
        self.dir = tempfile.mkdtemp(prefix="verif-c27-")
        try:
            self.run_in(spec, ctx)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def run_in(self, spec, ctx):
        ctx.tag("build " + spec["build"])
        sa = spec["a"]
        sb = spec["b"] if spec["b"] is not None else dict(spec["a"], ops=list(reversed(spec["a"]["ops"])))
        self.deep = spec["salt"] % 4 == 0
        # before this process has made any model
        alone = {t: forked(lambda t=t, s=s: self.alone(t, s, spec)) for t, s in (("a", sa), ("b", sb))}
        wa = self.make("a", sa, spec)
        wb = self.make("b", sb, spec)
        self.empties(wa, spec, ctx)
        w = {"a": wa, "b": wb}
        for x in (wa, wb):
            x.update()
        snaps = {k: self.snap(x) for k, x in w.items()}
        todo = {"a": list(sa["ops"]), "b": list(sb["ops"])}
        touched = set()
        for t in spec["turns"]:
            for _ in range(3):
                if not todo[t]:
                    break
                if w[t].apply(todo[t].pop(0)):
                    touched.add(t)
            w[t].update()
            o = "b" if t == "a" else "a"
            d = diff(self.snap(w[o]), snaps[o])
            ctx.check(d is None, "work on model %s changed model %s: %s", t, o, d)
            snaps[t] = self.snap(w[t])
        ctx.interesting(len(touched) == 2)
        for t in "ab":
            d = diff(tame(self.outcome(w[t])), tame(alone[t]))
            ctx.check(d is None, "the history of model %s leads elsewhere than in a process without other models: %s", t, d)
        self.disjoint(wa.model, wb.model, ctx)

    def empties(self, w, spec, ctx):
        """models without some of the object sets"""
        A = api()
        m = w.model
        w.update()
        before = self.snap(w)
        for cls in ("flex", "perf", "legacy_flex", "legacy_perf"):
            x, y = model_class(cls)(), model_class(cls)()
            n = A.Node("only")
            x.add_node(n)
            x.add_node(A.Node("other"))
            x.add_demand("only", "other", 3)
            x.add_rsvp_lsp("only", "other", "l")
            x.add_circuit(n, x.get_node_object("other"), "i", "j", 1, 1, 10, False, 1)
            x.add_srlg("s")
            x.update_simulation()
            for what in ("node_objects", "interface_objects", "demand_objects", "rsvp_lsp_objects", "srlg_objects", "circuit_objects"):
                ctx.check(len(getattr(y, what) or ()) == 0, "%s of a model built without objects contains another model's", what)
            z = model_class(cls)(node_objects={A.Node("q")}, interface_objects=set())
            ctx.check(not z.demand_objects and not z.rsvp_lsp_objects and len(z.node_objects) == 1, "a model built with nodes only has more")
            ctx.check(len(x.demand_objects) == 1 and len(x.interface_objects) == 2, "another model changed a model")
        d = diff(self.snap(w), before)
        ctx.check(d is None, "models built without objects changed another model: %s", d)

        a, b = A.Node("X"), A.Node("X")
        ctx.check(a.srlgs is not b.srlgs, "nodes share their SRLGs")
        i, j = A.Interface("i", 1, 1, a, b), A.Interface("i", 1, 1, a, b)
        ctx.check(i.srlgs is not j.srlgs, "interfaces share their SRLGs")

    def disjoint(self, m, o, ctx):
        for what in ("node_objects", "interface_objects", "demand_objects", "rsvp_lsp_objects", "srlg_objects", "circuit_objects"):
            x, y = getattr(m, what), getattr(o, what)
            ctx.check(x is not y and not ({id(i) for i in x} & {id(i) for i in y}), "the models share %s", what)


# ------------------------------------------------------------------ queries


def answer(x):
    """An answer in canonical form"""
    A = api()
    if is_if(x):
        return ("I",) + ikey(x)
    if is_lsp(x):
        return ("L",) + okey(x)
    if isinstance(x, A.Node):
        return ("N", x.name)
    if isinstance(x, A.Demand):
        return ("D",) + okey(x)
    if isinstance(x, A.SRLG):
        return ("S", x.name)
    if isinstance(x, A.Circuit):
        return ("C",) + tuple(sorted(ikey(i) for i in (x.interface_a, x.interface_b)))
    if isinstance(x, dict):
        return sorted((repr(answer(k)), answer(v)) for k, v in x.items())
    if isinstance(x, tuple):
        return tuple(answer(y) for y in x)
    if isinstance(x, list) and x and isinstance(x[0], list):
        return sorted((answer(y) for y in x), key=repr)  # lists of paths
    if isinstance(x, (list, set, frozenset)):
        r = [answer(y) for y in x]
        return r if isinstance(x, list) and all(is_if(y) for y in x) else sorted(r, key=repr)
    if hasattr(x, "__next__"):
        return sorted((answer(y) for y in x), key=repr)
    if isinstance(x, float):
        return round(x, 6)
    return x


def queries(m, rng, deep=True):
    """(name, function) for every query of the public API"""
    q = []

    def add(name, f):
        q.append((name, f))

    ns = sorted(n.name for n in m.node_objects)
    add("repr", lambda: repr(m))
    for n in ns:
        node = m.get_node_object(n)
        add("node %s" % n, lambda n=n: m.get_node_object(n))
        add("node interfaces", lambda n=n: sorted(ikey(i) for i in m.get_node_interfaces(n)))
        add("interfaces", lambda x=node: sorted(ikey(i) for i in x.interfaces(m)))
        add("adjacent", lambda x=node: x.adjacent_nodes(m))
        add("orphan", lambda x=node: m.is_node_an_orphan(x))
        add("source", lambda n=n: m.get_demand_objects_source_node(n))
        add("dest", lambda n=n: m.get_demand_objects_dest_node(n))
        add("repr node", lambda x=node: (repr(x), x.failed, x.lat, x.lon, x.igp_shortcuts_enabled))
        add("srlgs", lambda x=node: x.srlgs)
    add("orphans", m.get_orphan_node_objects)
    add("unrouted", m.get_unrouted_demand_objects)
    add("failed interfaces", lambda: sorted(ikey(i) for i in m.get_failed_interface_objects()))
    add("unfailed interfaces", m.get_unfailed_interface_objects)
    add("failed nodes", m.get_failed_node_objects)
    add("non-failed nodes", m.get_non_failed_node_objects)
    add("lsp groups", m.parallel_lsp_groups)
    add("demand groups", m.parallel_demand_groups)
    add("diagnostics", m.simulation_diagnostics)
    add("ids", lambda: m.all_interface_circuit_ids)
    for f in ("display_interface_status", "display_node_status", "display_interfaces_traffic", "display_interface_objects", "display_demand_paths"):
        add(f, getattr(m, f))
    for i in m.interface_objects:
        add("get interface", lambda i=i: m.get_interface_object(i.name, i.node_object.name))
        add("interface demands", lambda i=i: i.demands(m))
        add("interface lsps", lambda i=i: i.lsps(m))
        add("remote", lambda i=i: i.get_remote_interface(m))
        add("circuit", lambda i=i: i.get_circuit_object(m))
        add("repr interface", lambda i=i: (repr(i), i.utilization, i.reservable_bandwidth, i.reserved_bandwidth, hash(i) is None, i == i))
    for c in m.circuit_objects:
        add("circuit failed", lambda c=c: (c.failed(m), repr(c) is None, c.get_circuit_interfaces(m), c.circuit_id()))
    for d in m.demand_objects:
        add("demand", lambda d=d: (m.get_demand_object(*okey(d)), repr(d), d.path_detail if isinstance(d.path_detail, str) else sorted(map(str, d.path_detail))))
    for x in m.rsvp_lsp_objects:
        add("lsp", lambda x=x: (m.get_rsvp_lsp(*okey(x)), repr(x), x.manual_metric, x.setup_bandwidth))
        add("lsp demands", lambda x=x: x.demands_on_lsp(m))
        add("lsp traffic", lambda x=x: x.traffic_on_lsp(m))
        add("lsp metrics", lambda x=x: (x.effective_metric(m), x.topology_metric(m)))
    for s in m.srlg_objects:
        add("srlg", lambda s=s: (m.get_srlg_object(s.name), repr(s), s.failed, s.node_objects, s.interface_objects))
    for _ in range(4):
        if len(ns) > 1:
            a, b = rng.sample(ns, 2)
            bw, inc, cut = rng.choice([0, 0, 5, 10, 50]), rng.random() < 0.5, rng.choice([1, 2, 3, 4])
            add("shortest path", lambda a=a, b=b, bw=bw: m.get_shortest_path(a, b, bw))
            add("all paths", lambda a=a, b=b, bw=bw, inc=inc, cut=cut: m.get_all_paths_reservable_bw(a, b, inc, cut, bw))
            add("from nodes", lambda a=a, b=b: m.get_interface_object_from_nodes(a, b))
    rng.shuffle(q)
    return q


class C28(StateProp):
    id = "C28"
    rule = (
        "a simulated network (with a history), then every query of the API in random order, twice, with the whole state "
        "compared before and after; non-trivial: the model has routed demands and LSPs"
    )
    opts = dict(lsps=0.7, srlgs=0.3, shortcuts=0.3, demands=(1, 6), nodes=(2, 7), ops=(1, 6), op_weights=dict(fail_srlg=1, add_node=1, set_sc=1))
    shortcut_lsps = 0.2
    op_share = 0.6
    cases = {"quick": 10000, "thorough": 400000}

    def run(self, spec, ctx):
        w = World(spec)
        w.update()
        for op in spec["ops"]:
            w.apply(op)
        w.update()
        m = w.model
        rng = random.Random(spec["salt"])
        c0, r0 = config(m), results(m)
        k0 = (sorted(okey(c) for c in m.circuit_objects), in_order(m))
        first = {}
        qs = list(enumerate(queries(m, rng)))
        for j, (name, f) in qs:
            first[j] = repr(answer(f()))
            if rng.random() < 0.1:
                self.same(m, c0, r0, k0, name, ctx)
        rng.shuffle(qs)
        for j, (name, f) in qs:
            x = repr(answer(f()))
            ctx.check(x == first[j], "the second answer to '%s' is %s, the first was %s", name, x[:200], first[j][:200])
        self.same(m, c0, r0, k0, "the queries", ctx)
        ctx.interesting(any(d.path != "Unrouted" for d in m.demand_objects) and any(not unrouted(x) for x in m.rsvp_lsp_objects))
        det = lsps_deterministic(View(m))
        v = View(m)
        w.update()
        r1 = results(m)
        d = diff(tame(no_baseline(r1)), tame(no_baseline(r0))) if det else diff(tame(igp_part(v, r1)), tame(igp_part(v, r0)))
        ctx.check(d is None, "an update after the queries gives other results: %s", d)
        ctx.tag("full" if det else "igp")

    def same(self, m, c0, r0, k0, name, ctx):
        d = diff(config(m), c0)
        ctx.check(d is None, "'%s' changed the configuration: %s", name, d)
        d = diff(results(m), r0)
        ctx.check(d is None, "'%s' changed the results: %s", name, d)
        ctx.check(sorted(okey(c) for c in m.circuit_objects) == k0[0], "'%s' changed the circuits", name)
        d = diff(in_order(m), k0[1])
        ctx.check(d is None, "'%s' changed the order within a path list: %s", name, d)


def in_order(m):
    """the paths as they stand, in the order of the lists"""
    r = {}
    for d in m.demand_objects:
        r[okey(d)] = d.path if isinstance(d.path, str) else [[okey(x) for x in p] for p in d.path]
    for x in m.rsvp_lsp_objects:
        r[("lsp",) + tuple(okey(x))] = x.path if isinstance(x.path, str) else [okey(i) for i in x.path["interfaces"]]
    return r
