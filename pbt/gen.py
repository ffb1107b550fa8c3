"""Generators of network specs (plain JSON values) and of operation histories on them."""
import ast
import glob
import os

REPO = os.environ.get("VERIF_REPO", "/repo")

_mined = None


def mined():
    """Small integers and short strings that occur in the code under test: values a change could
    single out"""
    global _mined
    if _mined is None:
        ints, strs = set(), set()
        for fn in sorted(glob.glob(os.path.join(REPO, "pyNTM", "*.py"))):
            if fn.endswith("weathermap.py"):
                continue
            try:
                tree = ast.parse(open(fn, encoding="utf-8").read())
            except Exception:
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and 0 < v <= 1000:
                        ints.update(x for x in (v - 1, v, v + 1) if x > 0)
                    elif isinstance(v, float) and 0 < v <= 1000:
                        ints.update(x for x in (int(v), int(v) + 1) if x > 0)
                    elif isinstance(v, str) and 0 < len(v) <= 12 and v.strip() == v:
                        if v.isprintable() and "{" not in v and "%" not in v and "_TABLE" not in v:
                            strs.add(v)
        _mined = (sorted(ints), sorted(strs))
    return _mined


def wchoice(rng, pairs):
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


# names that differ only in case, in blanks or in their last characters
def confusable(base, blanks=True):
    b, c = base.lower(), base.capitalize()
    out = [b, b.upper(), c, b + "1", b + "10", b + "2", b.upper() + "1", b[:-1] or b + b, b + " 1", b + "_1", b + "01", b + ".0"]
    if blanks:
        out += [b + " ", " " + b]
    return list(dict.fromkeys(out))


def node_names(rng, n, blanks=True):
    style = wchoice(
        rng,
        [("letters", 8), ("r", 3), ("hyphen", 3), ("odd", 2), ("digits", 1), ("mined", 1), ("shuffled", 3), ("confusable", 1.5)],
    )
    letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    if style == "letters":
        pool = list(letters)
    elif style == "shuffled":
        pool = list(letters)
        rng.shuffle(pool)
    elif style == "r":
        pool = ["R1", "R10", "R2", "R11", "R1a", "R100", "R", "R3", "r1", "R21", "R12", "R20"]
        rng.shuffle(pool)
    elif style == "hyphen":
        pool = ["NYC", "NYC-1", "LA-1", "LA", "LA-1-b", "DFW", "SJC-2", "NYC-2", "BOS-", "-X", "A-to-B", "SF-1"]
        rng.shuffle(pool)
    elif style == "odd":
        pool = ["core 1", "Z\u00fcrich", "a.b", "None", "none", "Unrouted", "path", "0", "A'", "x:y", "B_2", "(c)", "#"]
        rng.shuffle(pool)
    elif style == "confusable":
        pool = confusable(rng.choice(["a", "core", "nyc"]), blanks)
        rng.shuffle(pool)
    elif style == "digits":
        pool = [str(x) for x in (1, 12, 2, 21, 11, 112, 3, 31, 13, 10, 0, 20)]
        rng.shuffle(pool)
    else:
        pool = list(mined()[1]) or list(letters)
        rng.shuffle(pool)
    names = []
    for p in pool + ["N%d" % i for i in range(99)]:
        if len(names) == n:
            break
        if p in names:
            continue
        cand = names + [p]
        keys = [(a, b) for a in cand for b in cand]
        # "source-dest" group names have to tell the pairs apart (known finding of C13)
        if len({"%s-%s" % k for k in keys}) == len(keys):
            names = cand
    return names


def topology(rng, n, parallel, shape=None):
    """list of (i, j) circuits"""
    shape = shape or wchoice(
        rng,
        [("tree+", 6), ("ring", 2), ("line", 2), ("grid", 3), ("diamonds", 4), ("star", 1), ("random", 4), ("full", 1), ("islands", 1)],
    )
    e = []
    if shape == "tree+":
        for i in range(1, n):
            e.append((rng.randrange(i), i))
        for _ in range(rng.randrange(0, n)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                e.append((a, b))
    elif shape == "ring":
        e = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)]
    elif shape == "line":
        e = [(i, i + 1) for i in range(n - 1)]
    elif shape == "grid":
        w = 2 if n <= 6 else 3
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                e.append((i, i + 1))
            if i + w < n:
                e.append((i, i + w))
    elif shape == "diamonds":
        # S - {a, b[, c]} - T - {..} - U
        i = 0
        while i + 1 < n:
            k = min(rng.choice([1, 2, 2, 3]), n - i - 2)
            if k <= 0:
                e.append((i, i + 1))
                i += 1
                continue
            t = i + k + 1
            for m in range(i + 1, t):
                e += [(i, m), (m, t)]
            if rng.random() < 0.3:
                e.append((i, t))
            i = t
    elif shape == "stages":
        # consecutive stages of 1-4 nodes, fully meshed: many equal paths from first to last
        stages, at = [[0]], 1
        while at < n - 1:
            k = min(rng.choice([1, 2, 3, 3, 4]), n - 1 - at)
            stages.append(list(range(at, at + k)))
            at += k
        stages.append(list(range(at, n)))
        for xs, ys in zip(stages, stages[1:]):
            e += [(x, y) for x in xs for y in ys]
    elif shape == "star":
        e = [(0, i) for i in range(1, n)]
    elif shape == "full":
        e = [(i, j) for i in range(n) for j in range(i + 1, n)]
    elif shape == "islands":
        h = max(2, n // 2)
        for i in range(1, n):
            if i != h:
                e.append((rng.randrange(0 if i < h else h, i), i))
    else:
        for i in range(n):
            for j in range(i + 1, n):
                if rng.random() < 0.45:
                    e.append((i, j))
    e = [(a, b) if rng.random() < 0.5 else (b, a) for a, b in e]
    out, seen = [], {}
    for a, b in e:
        k = (min(a, b), max(a, b))
        if k in seen and not parallel:
            continue
        seen[k] = 1
        out.append((a, b))
    if parallel:
        for a, b in list(out):
            while rng.random() < parallel and len(out) < 26:
                out.append((a, b) if rng.random() < 0.5 else (b, a))
    return out


def costs(rng):
    """a function giving interface costs"""
    style = wchoice(rng, [("one", 3), ("ten", 2), ("small", 5), ("mix", 3), ("large", 3), ("mined", 1), ("huge", 0.4), ("close", 0.6)])
    if style == "one":
        return lambda: 1
    if style == "ten":
        return lambda: 10
    if style == "small":
        return lambda: rng.randint(1, 3)
    if style == "mix":
        return lambda: rng.choice([1, 2, 5, 10, 10, 20])
    if style == "mined":
        return lambda: rng.choice(mined()[0] or [1])
    if style == "huge":
        return lambda: rng.randint(1, 1 << 40)
    if style == "close":  # large and nearly equal
        base = rng.choice([1000, 100000, 1 << 24, 10**9])
        return lambda: base + rng.randint(0, 2)
    return lambda: rng.randint(1, 100000)


CAPS = [1, 10, 20, 50, 100, 100, 100, 125, 200, 250, 1000, 1000]
PCTS = [100] * 6 + [80, 50, 50, 25, 10, 30, 0]


def capacity(rng, tight):
    if rng.random() < 0.03:
        return rng.choice(mined()[0] or [7])
    if tight:
        return rng.choice([10, 10, 20, 20, 30, 40, 50])
    c = rng.choice(CAPS)
    return c + rng.choice([0.5, 0.5, 0.25, 0.36, 0.75, 0.99]) if rng.random() < 0.05 else c


def percent(rng, cap):
    p = rng.choice(PCTS)
    if rng.random() < 0.05:
        p = rng.choice([33, 1, 99, 75, 12.5, 66.5])
    return p


def traffic(rng):
    x = rng.random()
    if x < 0.06:
        return 0
    if x < 0.07:
        return rng.choice([0.001, 0.04, 0.06, 1e7])
    if x < 0.75:
        return rng.choice([1, 5, 8, 10, 10, 12, 20, 24, 30, 40, 60, 80, 100, rng.randint(1, 300)])
    if x < 0.80:
        return rng.choice(mined()[0] or [7])
    return rng.choice([0.5, 2.5, 7.25, 10.5, 33.75, 0.25, 99.5, 1000.5])


def text_ids(spec):
    """Make the circuit ids differ as text too"""
    if len({str(c["id"]) for c in spec["cks"]}) < len(spec["cks"]):
        for i, c in enumerate(spec["cks"]):
            c["id"] = str(i + 1)
    return spec


def circuit_id(style, i, a, b):
    if style == "zero":
        return i
    if style == "int":
        return i + 1
    if style == "str":
        return str(i + 1)
    if style == "mixed":  # 1 and "1" are different ids
        return i // 2 + 1 if i % 2 else str(i // 2 + 1)
    return "ckt-%s-%s-%d" % (a, b, i)


DEFAULT = dict(
    cls="any",  # flex | perf | any
    nodes=(2, 8),
    parallel=None,
    lsps=0.6,
    shortcuts=0.0,
    contention=0.4,
    rsvp_off=0.25,
    pct=0.3,
    mm=0.2,
    bw=0.2,
    asym=0.35,
    demands=(0, 8),
    srlgs=0.0,
    ops=(0, 0),
    updates=True,
    orphan=0.15,
    big=0.04,
    huge=0.006,
    op_weights=None,
    legacy=0.15,
    focus_pairs=0.5,
    blanks=True,  # names with blanks around them
    bypass=0.1,  # a direct circuit as dear as two hops
    scale=0.06,  # capacities, traffic and bandwidths in kbps or bps
)


def network(rng, **opt):
    o = dict(DEFAULT)
    o.update(opt)
    cls = o["cls"] if o["cls"] != "any" else rng.choice(["flex", "flex", "perf"])
    spec = {"cls": cls, "salt": rng.randrange(1 << 30)}
    if rng.random() < o["legacy"]:
        spec["cls"] = {"flex": "legacy_flex", "perf": "legacy_perf"}[cls]
    big = rng.random() < o["big"]
    kind = None
    n = rng.randint(*o["nodes"])
    if not big and n > 6 and rng.random() < 0.5:
        n = rng.randint(3, 6)
    parallel = 0
    if cls == "flex":
        parallel = o["parallel"]
        if parallel is None:
            parallel = rng.choice([0, 0.15, 0.3, 0.5])
    shape = None
    if big:
        kind = rng.choice(["long", "wide", "many", "stages"])
        if kind == "long":
            n, shape, parallel = rng.randint(11, 15), rng.choice(["line", "ring"]), 0
        elif kind == "wide" and cls == "flex":
            n, parallel = rng.randint(2, 4), 0.75
        elif kind == "stages":
            n, shape, parallel = rng.randint(8, 13), rng.choice(["stages", "stages", "diamonds"]), rng.choice([0, 0, 0.15])
            if cls == "perf":
                parallel = 0
    huge = None
    if not big and rng.random() < o["huge"]:
        # a size that some constant of the code might be exceeded by
        small = [x for x in mined()[0] if 8 <= x <= 40]
        size = rng.choice(small) if small and rng.random() < 0.5 else rng.randint(9, 40)
        huge = rng.choice(["chain", "hub", "bundle", "group", "matrix"])
        if huge == "chain":
            n, shape, parallel = size + 1, "line", rng.choice([0, 0.03]) if cls == "flex" else 0
        elif huge == "hub":
            n, shape, parallel = size + 1, "star", 0
        elif huge == "bundle" and cls == "flex":
            n, shape, parallel = rng.choice([2, 2, 3]), "line", 0
    names = node_names(rng, n, o["blanks"])
    n = len(names)
    tight = rng.random() < o["contention"]
    cost = costs(rng)
    if shape in ("stages", "diamonds") and rng.random() < 0.8:
        unit = rng.choice([1, 10])
        cost = lambda: unit  # noqa
    edges = topology(rng, n, parallel, shape)
    if huge == "bundle" and cls == "flex":
        at = rng.choice(edges)
        edges += [at if rng.random() < 0.5 else at[::-1] for _ in range(size - 1)]
        sure = rng.choice([1, 10])
        cost = lambda: sure  # noqa
    ifstyle = rng.choice(["to", "to", "to", "eth", "eth", "num", "num", "ge", "ge", "confusable"])
    ifpool = confusable(rng.choice(["e", "ge"]), o["blanks"])
    rng.shuffle(ifpool)
    idstyle = rng.choice(["str", "str", "str", "int", "int", "zero", "name", "name", "mixed"])
    asym = rng.random() < o["asym"]
    rsvp_off = rng.random() < o["rsvp_off"]
    use_pct = rng.random() < o["pct"]
    sameish = rng.random() < 0.5  # parallel links of equal cost
    cks, last = [], {}
    for i, (a, b) in enumerate(edges):
        cap = capacity(rng, tight)
        ca = cost()
        key = (min(a, b), max(a, b))
        if sameish and key in last and rng.random() < 0.7:
            ca = last[key]
        last[key] = ca
        cb = cost() if asym and rng.random() < 0.6 else ca
        A, B = names[a], names[b]
        if ifstyle == "to":
            na, nb = "%s-to-%s" % (A, B), "%s-to-%s" % (B, A)
            k = sum(1 for c in cks if {c["a"], c["b"]} == {A, B})
            if k:
                na, nb = "%s_%d" % (na, k + 1), "%s_%d" % (nb, k + 1)
        elif ifstyle == "eth":
            na = "eth%d" % sum((c["a"] == A) + (c["b"] == A) for c in cks)
            nb = "eth%d" % sum((c["a"] == B) + (c["b"] == B) for c in cks)
        elif ifstyle == "confusable":
            j = [sum((c["a"] == x) + (c["b"] == x) for c in cks) for x in (A, B)]
            na, nb = ["%s%s" % (ifpool[x % len(ifpool)], x // len(ifpool) or "") for x in j]
        elif ifstyle == "num":
            na, nb = str(2 * i), str(2 * i + 1)
        else:
            na = nb = "ge-%d" % i
        c = {
            "k": "k%d" % i,
            "a": A,
            "b": B,
            "na": na,
            "nb": nb,
            "ca": ca,
            "cb": cb,
            "cap": cap,
            "id": circuit_id(idstyle, i, A, B),
            "ra": True,
            "rb": True,
            "pa": 100,
            "pb": 100,
        }
        if rsvp_off and rng.random() < 0.25:
            c["ra"] = False
            c["rb"] = rng.random() < 0.4
        if use_pct and rng.random() < 0.5:
            c["pa"] = percent(rng, cap)
            c["pb"] = percent(rng, cap) if rng.random() < 0.5 else c["pa"]
        cks.append(c)
    tied = []
    while not big and not huge and len(cks) > 1 and rng.random() < o["bypass"]:
        again = tied[-1] if tied and rng.random() < 0.5 else None
        tied.append(bypass(rng, cks, cls, capacity(rng, tight), idstyle, again))
    if not big and not huge and rng.random() < o["bypass"] * 0.6:
        tied.append(staircase(rng, cks, names, capacity(rng, tight), idstyle, n))
    orphan_name = next(x for x in ("orphan", "orphan2") if x not in names)
    spec["nodes"] = [{"n": x, "lat": rng.choice([0, 0, 5, -7, 5, 37.75]), "lon": rng.choice([0, 0, 3, 10, 3, -122.5])} for x in names]
    if rng.random() < o["orphan"]:
        spec["nodes"].append({"n": orphan_name, "lat": 0, "lon": 0})
    if cls == "flex" and rng.random() < o["shortcuts"]:
        p = rng.choice([0.2, 0.5, 1.0])
        for x in spec["nodes"]:
            if rng.random() < p:
                x["sc"] = True
    spec["cks"] = cks
    allnames = [x["n"] for x in spec["nodes"]]
    pairs = [(a, b) for a in allnames for b in allnames if a != b]
    nd = rng.randint(*o["demands"])
    if big and rng.random() < 0.5:
        nd += rng.randint(5, 12)
    if huge == "matrix":
        nd = size
    focus = [rng.choice(pairs) for _ in range(rng.randint(1, 3))]
    if any(tied) and rng.random() < 0.7:
        focus = [x for x in tied if x]
    use_focus = rng.random() < o["focus_pairs"]
    lsps, demands = [], []
    dpool = confusable("d", o["blanks"]) if rng.random() < 0.15 else None
    lpool = confusable("lsp", o["blanks"]) if rng.random() < 0.15 else None
    has_lsps = rng.random() < o["lsps"]

    def pick():
        return rng.choice(focus) if use_focus and rng.random() < 0.7 else rng.choice(pairs)

    for i in range(nd):
        s, d = pick()
        if (kind == "stages" or huge in ("chain", "bundle")) and i == 0:
            s, d = names[0], names[-1]
        nm = wchoice(rng, [("d%d" % i, 6), ("none", 1), ("dmd_%s_%s" % (s, d), 1), ("d-1", 1), ("d", 1)])
        if dpool:
            nm = rng.choice(dpool)
        demands.append({"s": s, "d": d, "n": nm, "t": traffic(rng)})
    if has_lsps:
        for g in range(rng.randint(1, 4)):
            if demands and rng.random() < 0.7:
                x = rng.choice(demands)
                s, d = x["s"], x["d"]
            else:
                s, d = pick()
            k = wchoice(rng, [(1, 4), (2, 4), (3, 3), (4, 1), (7 if big else 2, 1)])
            if huge == "group" and g == 0:
                k = size
            for j in range(k):
                nm = wchoice(rng, [("lsp_%d_%d" % (g, j), 50 if huge == "group" else 5), ("lsp%d" % j, 3), ("none", 0.5), ("Unrouted", 0.3), ("%s-%s" % (s, d), 0.5)])
                if lpool:
                    nm = rng.choice(lpool)
                lsp = {"s": s, "d": d, "n": nm, "bw": None, "mm": None}
                if rng.random() < o["bw"]:
                    lsp["bw"] = rng.choice([0, 1, 5, 10, 10, 12.5, 20, 50, 1000, 3, rng.choice([9.96, 12.34, 0.06, 3.25, 19.95])])
                if rng.random() < o["mm"]:
                    lsp["mm"] = rng.choice([1, 2, 3, 10, 15, 20, 50, 200000])
                lsps.append(lsp)
    spec["demands"] = demands
    spec["lsps"] = lsps
    spec["srlgs"] = []
    if rng.random() < o["srlgs"]:
        spool = confusable("s", o["blanks"]) if rng.random() < 0.3 else None
        for i in range(rng.randint(1, 3)):
            s = {"n": rng.choice(spool or ["srlg%d" % i, "s-%d" % i]), "nodes": [], "cks": []}
            for x in allnames:
                if rng.random() < 0.25:
                    s["nodes"].append(x)
            for c in cks:
                if rng.random() < 0.25:
                    s["cks"].append([c["k"], rng.choice(["a", "b"])])
            spec["srlgs"].append(s)
    spec["ops"] = []
    k = rng.randint(*o["ops"])
    for _ in range(k):
        op = gen_op(rng, spec, o)
        if op:
            spec["ops"].append(op)
    if rng.random() < o["scale"]:
        scale_bandwidth(spec, rng.choice([16, 1000, 1000, 1000000, 10**7]))
    return normalise(spec)


def bypass(rng, cks, cls, cap, idstyle, pair=None):
    """adds one to three circuits that cost as much as a least-cost path between the same nodes; returns the pair"""
    nodes = sorted({x for c in cks for x in (c["a"], c["b"])})
    cost = {}
    for c in cks:
        for u, v, x in ((c["a"], c["b"], c["ca"]), (c["b"], c["a"], c["cb"])):
            cost[u, v] = min(x, cost.get((u, v), x))
    start = pair[0] if pair else rng.choice(nodes)
    best, todo = {start: (0, (start,))}, [start]
    while todo:
        u = todo.pop(0)
        for (a, b), x in sorted(cost.items()):
            if a == u and (b not in best or best[u][0] + x < best[b][0]):
                best[b] = (best[u][0] + x, best[u][1] + (b,))
                todo.append(b)
    far = [x for x in nodes if x in best and len(best[x][1]) > 3] or [x for x in nodes if x in best and len(best[x][1]) > 2]
    if not far and not pair:
        return None
    end = pair[1] if pair else rng.choice(far)
    to, path = best[end]
    if rng.random() < 0.5:
        back = to
    else:
        back = sum(cost[b, a] for a, b in zip(path, path[1:]))
    linked = {frozenset((c["a"], c["b"])) for c in cks} if cls == "perf" else ()

    def free(a, b):
        return frozenset((a, b)) not in linked

    def parts(x, n):
        if n == 2 and rng.random() < 0.5:
            return [x - 1, 1] if rng.random() < 0.8 else [1, x - 1]
        cuts = sorted(rng.sample(range(1, int(x)), n - 1))
        return [b - a for a, b in zip([0] + cuts, cuts + [x])]

    via = [x for x in nodes if x not in path]
    rng.shuffle(via)
    chains = [[start, end]] + [[start, x, end] for x in via[:2]] + [[start, x, y, end] for x in via[:1] for y in via[1:]]
    chains = [c for c in chains if min(to, back) >= len(c) - 1 and all(free(a, b) for a, b in zip(c, c[1:]))]
    if not pair and len(path) > 3 and rng.random() < 0.8:
        chains = [c for c in chains if len(c) == 3] or chains
    elif not pair:
        chains = [c for c in chains if len(c) == 2]
    if not chains:
        return None
    chain = rng.choice(chains)
    hops = list(zip(chain, chain[1:], parts(to, len(chain) - 1), parts(back, len(chain) - 1)))
    for a, b, ca, cb in hops:
        i = len(cks)
        cks.append({
            "k": "k%d" % i, "a": a, "b": b, "na": "by-%d-a" % i, "nb": "by-%d-b" % i, "ca": ca, "cb": cb, "cap": cap,
            "id": circuit_id(idstyle, i, a, b), "ra": True, "rb": True, "pa": 100, "pb": 100,
        })
    return start, end


def staircase(rng, cks, names, cap, idstyle, n):
    """adds two or three chains over new nodes that cost the same but have different numbers of hops; returns the pair"""
    a, b = rng.sample(names, 2)
    total = rng.choice([4, 4, 5, 6])
    fresh = (x for x in ("v%d" % k for k in range(99)) if x not in names)
    hops = [2, 3] + rng.choice([[], [], [3], [4], [2]])
    rng.shuffle(hops)
    new = []
    for h in hops:
        cuts = sorted(rng.sample(range(1, total), h - 1))
        if rng.random() < 0.5 and h == min(hops):
            cuts[-1] = total - 1
        costs = [y - x for x, y in zip([0] + cuts, cuts + [total])]
        chain = [a] + [next(fresh) for _ in range(h - 1)] + [b]
        new += chain[1:-1]
        for (u, v), c in zip(zip(chain, chain[1:]), costs):
            i = len(cks)
            cks.append({
                "k": "k%d" % i, "a": u, "b": v, "na": "st-%d-a" % i, "nb": "st-%d-b" % i, "ca": c, "cb": c if rng.random() < 0.7 else rng.randint(1, 3),
                "cap": cap, "id": circuit_id(idstyle, i, u, v), "ra": True, "rb": True, "pa": 100, "pb": 100,
            })
    names += new
    return a, b


def scale_bandwidth(spec, f):
    """Capacities, traffic and bandwidths in a smaller unit"""

    def by(x):
        return x if x is None else x * f

    for c in spec["cks"]:
        c["cap"] = by(c["cap"])
    for x in spec["demands"]:
        x["t"] = by(x["t"])
    for x in spec["lsps"]:
        x["bw"] = by(x["bw"])
    at = {"add_demand": 4, "set_traffic": 4, "set_cap": 2, "set_bw": 4, "query": 3}
    for p in spec["ops"]:
        if p[0] in at:
            p[at[p[0]]] = by(p[at[p[0]]])
        elif p[0] == "add_ck":
            p[1]["cap"] = by(p[1]["cap"])


NEAR = ["", "case", "upper", "pad", "front", "longer", "prefix"]


def near(name, how):
    """a name like an existing one"""
    return {
        "": "no such element", "case": name.swapcase(), "upper": name.upper(), "pad": name + " ", "front": " " + name,
        "longer": name + "1", "prefix": name[:-1] or name + "2",
    }[how]


OP_WEIGHTS = {
    "update": 6,
    "fail_if": 4,
    "unfail_if": 3,
    "fail_node": 2,
    "unfail_node": 2,
    "add_demand": 1.5,
    "rm_demand": 1,
    "set_traffic": 1,
    "set_cost": 2,
    "set_cap": 1,
    "set_rsvp": 1,
    "set_pct": 0.7,
    "add_ck": 1,
    "add_lsp": 1,
    "rm_lsp": 0.7,
    "set_mm": 1,
    "set_bw": 0.7,
    "rename_if": 0.6,
    "add_node": 0.5,
    "set_sc": 0.0,
    "fail_srlg": 0,
    "unfail_srlg": 0,
    "srlg_add_node": 0,
    "srlg_add_if": 0,
    "srlg_rm_node": 0,
    "srlg_rm_if": 0,
    "add_srlg": 0,
    "srlg_new_node": 0,
    "srlg_new_if": 0,
    "srlg_unknown": 0,
    "query": 1,
    "validate": 0.3,
}


def srlg_name(rng, spec):
    new = [p[1] for p in spec["ops"] if p[0] in ("add_srlg", "srlg_new_node", "srlg_new_if")]
    return rng.choice([s["n"] for s in spec["srlgs"]] + new)


def rename(rng, spec, cks, side):
    """A new name, or one that an earlier renaming left, for the same interface or another one of that node"""
    left = []
    for p in spec["ops"]:
        if p[0] == "rename_if":
            for c in spec["cks"]:
                if c["k"] == p[1]:
                    left.append((c[p[2]], c["n" + p[2]], p[3]))
    if left and rng.random() < 0.7:
        node, name, now = rng.choice(left)
        there = [(c["k"], x) for c in spec["cks"] for x in "ab" if c[x] == node]
        return ["rename_if"] + list(rng.choice(there)) + [name if rng.random() < 0.75 else now]
    return ["rename_if", rng.choice(cks), side, "renamed%d" % len(spec["ops"])]


def gen_op(rng, spec, o):
    w = dict(OP_WEIGHTS)
    if o.get("op_weights"):
        w.update(o["op_weights"])
    kind = wchoice(rng, sorted((k, v) for k, v in w.items() if v > 0))
    names = [x["n"] for x in spec["nodes"]] + [p[1]["n"] for p in spec["ops"] if p[0] == "add_node"]
    cks = [c["k"] for c in spec["cks"]] + [p[1]["k"] for p in spec["ops"] if p[0] == "add_ck"]
    side = rng.choice(["a", "b"])
    if kind in ("update", "validate"):
        return [kind]
    if kind in ("fail_if", "unfail_if"):
        if not cks:
            return None
        # operations tend to hit the same few circuits
        k = rng.choice(cks[: max(2, len(cks) // 2)]) if rng.random() < 0.5 else rng.choice(cks)
        return [kind, k, side, rng.choice(["model", "model", "iface"] if kind == "fail_if" else ["model", "raise", "iface"])]
    if kind in ("fail_node", "unfail_node"):
        return [kind, rng.choice(names[:3]) if rng.random() < 0.5 else rng.choice(names)]
    if kind == "add_demand":
        s, d = rng.choice(names), rng.choice(names)
        return [kind, s, d, rng.choice(["x%d" % len(spec["ops"]), "none", "d0"]), traffic(rng)] if s != d else None
    if kind in ("rm_demand", "set_traffic"):
        ds = [(x["s"], x["d"], x["n"]) for x in spec["demands"]] + [tuple(p[1:4]) for p in spec["ops"] if p[0] == "add_demand"]
        if not ds:
            return None
        k = rng.choice(ds)
        return [kind] + list(k) + ([traffic(rng)] if kind == "set_traffic" else [])
    if kind in ("rm_lsp", "set_mm", "set_bw"):
        ls = [(x["s"], x["d"], x["n"]) for x in spec["lsps"]] + [tuple(p[1:4]) for p in spec["ops"] if p[0] == "add_lsp"]
        if not ls:
            return None
        k = rng.choice(ls)
        if kind == "rm_lsp":
            return [kind] + list(k)
        if kind == "set_mm":
            return [kind] + list(k) + [rng.choice([-1, -1, 1, 5, 10, 100])]
        return [kind] + list(k) + [rng.choice([None, 0, 5, 10, 40])]
    if kind == "add_lsp":
        s, d = rng.choice(names), rng.choice(names)
        return [kind, s, d, rng.choice(["y%d" % len(spec["ops"]), "lsp0"])] if s != d else None
    if kind == "add_node":
        nm = "new%d" % len(spec["ops"])
        return [kind, {"n": nm, "lat": 0, "lon": 0}] if nm not in names else None
    if kind == "set_cost":
        return [kind, rng.choice(cks), side, rng.choice([1, 1, 2, 3, 10, rng.randint(1, 50)])] if cks else None
    if kind == "set_cap":
        return [kind, rng.choice(cks), rng.choice([10, 50, 100, 300])] if cks else None
    if kind == "set_rsvp":
        return [kind, rng.choice(cks), side, rng.random() < 0.5] if cks else None
    if kind == "set_pct":
        return [kind, rng.choice(cks), side, rng.choice([100, 50, 0, 80])] if cks else None
    if kind == "rename_if":
        return rename(rng, spec, cks, side) if cks else None
    if kind == "add_ck":
        a, b = rng.choice(names), rng.choice(names)
        if a == b:
            return None
        i = len(spec["ops"])
        pairs = [{c["a"], c["b"]} for c in spec["cks"]] + [{p[1]["a"], p[1]["b"]} for p in spec["ops"] if p[0] == "add_ck"]
        if spec["cls"].endswith("perf") and {a, b} in pairs:
            return None
        return [
            kind,
            {
                "k": "o%d" % i,
                "a": a,
                "b": b,
                "na": "add-%d-a" % i,
                "nb": "add-%d-b" % i,
                "ca": rng.choice([1, 2, 10]),
                "cb": rng.choice([1, 2, 10]),
                "cap": rng.choice([10, 50, 100]),
                "id": 1000 + i,
                "failed": rng.random() < 0.15,
                "ra": True,
                "rb": True,
                "pa": 100,
                "pb": 100,
            },
        ]
    if kind == "set_sc":
        return [kind, rng.choice(names), rng.random() < 0.6]
    if kind in ("fail_srlg", "unfail_srlg"):
        return [kind, srlg_name(rng, spec)] if spec["srlgs"] else None
    if kind in ("srlg_add_node", "srlg_rm_node"):
        return [kind, srlg_name(rng, spec), rng.choice(names)] if spec["srlgs"] else None
    if kind in ("srlg_add_if", "srlg_rm_if"):
        return [kind, srlg_name(rng, spec), rng.choice(cks), side] if spec["srlgs"] and cks else None
    if kind in ("add_srlg", "srlg_new_node", "srlg_new_if"):
        known = [s["n"] for s in spec["srlgs"]] + [p[1] for p in spec["ops"] if p[0] in ("add_srlg", "srlg_new_node", "srlg_new_if")]
        s = rng.choice(known) if known and rng.random() < 0.3 else "new%d" % len(spec["ops"])
        if known and rng.random() < 0.2:
            s = near(rng.choice(known), rng.choice(NEAR[1:]))
        if kind == "add_srlg":
            return [kind, s]
        if kind == "srlg_new_node":
            return [kind, s, rng.choice(names)]
        return [kind, s, rng.choice(cks), side] if cks else None
    if kind == "srlg_unknown":
        return [kind, rng.choice(["add_node", "add_if", "rm_node", "rm_if", "fail", "unfail", "get"]), rng.choice(names), rng.choice(cks), side, rng.choice(NEAR)] if cks else None
    if kind == "query":
        return [kind, rng.choice(names), rng.choice(names), rng.choice([0, 0, 5, 10])]
    raise AssertionError(kind)


def normalise(spec):
    """Drops what does not fit together any more (after generation or while shrinking)"""
    names = []
    nodes = []
    for x in spec.get("nodes", []):
        if x["n"] not in names:
            names.append(x["n"])
            nodes.append(x)
    spec["nodes"] = nodes
    keys = [(a, b) for a in names for b in names]
    if len({"%s-%s" % k for k in keys}) != len(keys):
        return None
    perf = spec["cls"].endswith("perf")
    cks, ifs, ids, pairs, ks = [], set(), set(), set(), set()
    for c in spec.get("cks", []):
        if c["a"] == c["b"] or c["a"] not in names or c["b"] not in names:
            continue
        if (c["a"], c["na"]) in ifs or (c["b"], c["nb"]) in ifs or c["id"] in ids or c["k"] in ks:
            continue
        if perf and frozenset((c["a"], c["b"])) in pairs:
            continue
        if c["ca"] < 1 or c["cb"] < 1 or c["cap"] <= 0:
            return None
        ifs |= {(c["a"], c["na"]), (c["b"], c["nb"])}
        ids.add(c["id"])
        ks.add(c["k"])
        pairs.add(frozenset((c["a"], c["b"])))
        cks.append(c)
    spec["cks"] = cks
    for what in ("demands", "lsps"):
        seen, out = set(), []
        for x in spec.get(what, []):
            k = (x["s"], x["d"], x["n"])
            if x["s"] != x["d"] and x["s"] in names and x["d"] in names and k not in seen:
                seen.add(k)
                out.append(x)
        spec[what] = out
    for x in spec["demands"]:
        if x["t"] < 0:
            return None
    for x in spec["lsps"]:
        if x["mm"] is not None and x["mm"] < 1:
            return None
    out = []
    for s in spec.get("srlgs", []):
        if s["n"] in [t["n"] for t in out]:
            continue
        s["nodes"] = [x for x in s["nodes"] if x in names]
        s["cks"] = [x for x in s["cks"] if x and x[0] in ks]
        out.append(s)
    spec["srlgs"] = out
    arity = {
        "update": 1, "validate": 1, "fail_if": 4, "unfail_if": 4, "fail_node": 2, "unfail_node": 2, "add_demand": 5,
        "rm_demand": 4, "set_traffic": 5, "set_cost": 4, "set_cap": 3, "set_rsvp": 4, "set_pct": 4, "add_ck": 2,
        "add_lsp": 4, "rm_lsp": 4, "set_mm": 5, "set_bw": 5, "rename_if": 4, "add_node": 2, "set_sc": 3,
        "fail_srlg": 2, "unfail_srlg": 2, "srlg_add_node": 3, "srlg_rm_node": 3, "srlg_add_if": 4, "srlg_rm_if": 4,
        "query": 4, "add_srlg": 2, "srlg_new_node": 3, "srlg_new_if": 4, "srlg_unknown": 6,
        "add_list": 3, "add_ck_unknown": 3, "unknown": 4,
    }
    spec["ops"] = [p for p in spec.get("ops", []) if p and isinstance(p[0], str) and len(p) == arity.get(p[0], -1)]
    return spec


def add_shortcut_lsps(rng, spec):
    """Adds LSPs between nodes on the least-cost paths of demands, mostly ones that can be routed,
    and enables shortcuts on their sources"""
    from .net import Net
    from .ref import Graph

    net = Net.from_spec(spec)
    g = Graph(net.nodes, net.edges())
    by_name = {x["n"]: x for x in spec["nodes"]}
    j = 0
    style = rng.choice(["few", "some", "many"])
    for d in spec["demands"]:
        if g.cost(d["s"], d["d"]) is None or any((x["s"], x["d"]) == (d["s"], d["d"]) for x in spec["lsps"]):
            continue
        dag = sorted(g.dag_nodes(d["s"], d["d"]), key=lambda n: (-g.to(d["d"])[n], n))
        if len(dag) < 3:
            continue
        for _ in range({"few": 1, "some": 2, "many": 4}[style]):
            a, b = sorted(rng.sample(range(len(dag)), 2))
            s, t = dag[a], dag[b]
            if (s, t) == (d["s"], d["d"]) and rng.random() < 0.9:
                continue
            for k in range(rng.choice([1, 1, 1, 2, 3])):
                c = g.cost(s, t)
                mm = rng.choice([None, None, None, c, c, rng.randint(1, 30)])
                spec["lsps"].append({"s": s, "d": t, "n": "sc%d" % j, "bw": rng.choice([None, None, 0, 0, 1]), "mm": mm})
                j += 1
            if rng.random() < 0.9:
                by_name[s]["sc"] = True
    return normalise(spec)
