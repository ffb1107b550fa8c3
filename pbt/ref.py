"""Reference computations: shortest paths, ECMP shares, LSP signaling, IGP shortcuts. Written
against the documented behaviour, with nothing from the code under test."""
import heapq
import itertools
from fractions import Fraction

from .core import Discard

MAX_PATHS = 6000


class Graph:
    def __init__(self, nodes, edges, use=None):
        """edges: {id: Edge}; use: predicate on Edge (default: up)"""
        self.nodes = list(nodes)
        self.edges = edges
        self.out = {n: [] for n in self.nodes}
        self.inn = {n: [] for n in self.nodes}
        for e in edges.values():
            if (e.up if use is None else use(e)) and e.u in self.out and e.v in self.out:
                self.out[e.u].append(e)
                self.inn[e.v].append(e)
        self._to = {}

    def to(self, dst):
        """cost of the least-cost path from every node to dst"""
        if dst in self._to:
            return self._to[dst]
        dist = {dst: 0}
        done = set()
        q = [(0, 0, dst)]
        c = itertools.count(1)
        while q:
            d, _, n = heapq.heappop(q)
            if n in done:
                continue
            done.add(n)
            for e in self.inn[n]:
                x = d + e.cost
                if e.u not in dist or x < dist[e.u]:
                    dist[e.u] = x
                    heapq.heappush(q, (x, next(c), e.u))
        self._to[dst] = dist
        return dist

    def cost(self, s, d):
        return self.to(d).get(s)

    def next_edges(self, n, dst):
        """edges of n on its least-cost paths to dst"""
        dist = self.to(dst)
        if n == dst or n not in dist:
            return []
        return [e for e in self.out[n] if e.v in dist and e.cost + dist[e.v] == dist[n]]

    def count(self, s, d):
        memo = {}

        def f(n):
            if n == d:
                return 1
            if n not in memo:
                memo[n] = sum(f(e.v) for e in self.next_edges(n, d))
            return memo[n]

        return f(s)

    def paths(self, s, d, limit=MAX_PATHS):
        """all least-cost interface-level paths"""
        if self.cost(s, d) is None:
            return []
        if self.count(s, d) > limit:
            raise Discard()
        out, stack = [], [(s, ())]
        while stack:
            n, p = stack.pop()
            if n == d:
                out.append(p)
                continue
            for e in self.next_edges(n, d):
                stack.append((e.v, p + (e.id,)))
        return out

    def shares(self, s, d):
        """{edge id: Fraction} by equal split over the egress interfaces at every node"""
        if self.cost(s, d) is None:
            return {}
        dist = self.to(d)
        at = {s: Fraction(1)}
        out = {}
        order = sorted((n for n in self.nodes if n in dist), key=lambda n: -dist[n])
        for n in order:
            f = at.get(n)
            if not f or n == d:
                continue
            nx = self.next_edges(n, d)
            for e in nx:
                out[e.id] = f / len(nx)
                at[e.v] = at.get(e.v, 0) + f / len(nx)
        return out

    def dag_nodes(self, s, d):
        seen, stack = set(), [s]
        while stack:
            n = stack.pop()
            if n in seen:
                continue
            seen.add(n)
            stack += [e.v for e in self.next_edges(n, d)]
        return seen

    def simple_paths(self, s, d, cutoff, limit=MAX_PATHS):
        out = []
        steps = [0]

        def f(n, p, seen):
            steps[0] += 1
            if steps[0] > 20 * limit:
                raise Discard()
            if n == d:
                out.append(p)
                if len(out) > limit:
                    raise Discard()
                return
            if len(p) >= cutoff:
                return
            for e in self.out[n]:
                if e.v not in seen:
                    f(e.v, p + (e.id,), seen | {e.v})

        f(s, (), {s})
        return out

    def best_paths(self, s, d, fewest=True):
        """least-cost paths, of these the ones with fewest hops"""
        ps = self.paths(s, d)
        if fewest and ps:
            h = min(len(p) for p in ps)
            ps = [p for p in ps if len(p) == h]
        return ps


# ------------------------------------------------------------------ LSP signaling


def r1(x):
    return round(x, 1)


class LspView:
    """What is observed of an LSP"""

    __slots__ = ("key", "bw", "path", "reserved", "baseline", "setup")

    def __init__(self, key, bw, path, reserved, baseline, setup):
        self.key, self.bw, self.path, self.reserved, self.baseline, self.setup = key, bw, path, reserved, baseline, setup


class Inconclusive(Exception):
    pass


def explain(nodes, edges, groups, traffic, budget=6000, baselines=True):
    """Is there a signaling order that explains the observed outcome?

    groups: list of lists of LspView, all of one group with the same endpoints; traffic: the group
    traffics. Returns True or False; raises Inconclusive if the search gets too long."""
    nodes = list(nodes)
    usable = {i: e for i, e in edges.items() if e.up and e.rsvp}
    limit = {i: e.limit for i, e in usable.items()}
    steps = [0]
    EPS = 1e-6
    dead = set()

    def residual(res, i):
        return r1(limit[i] - r1(res.get(i, 0)))

    cache = {}

    def candidates(src, dst, need, res, back=None, fewest=True):
        steps[0] += 1
        if steps[0] > budget:
            raise Inconclusive()
        ok = []
        for i in usable:
            x = residual(res, i)
            if back and i in back:
                x = r1(x + back[i])
            if abs(x - need) < EPS and abs(x - need) > 0:
                raise Inconclusive()
            if x >= need:
                ok.append(i)
        key = (src, dst, tuple(ok), fewest)
        if key not in cache:
            g = Graph(nodes, {i: usable[i] for i in ok}, use=lambda e: True)
            cache[key] = g.best_paths(src, dst, fewest) if fewest else g.paths(src, dst)
        return cache[key]

    def reserve(res, path, bw):
        res = dict(res)
        for i in path:
            res[i] = res.get(i, 0) + r1(bw)
        return res

    def baseline_ok(lsp, path, res, back=None):
        if not baselines:
            return True
        b = min(residual(res, i) + (back[i] if back and i in back else 0) for i in path)
        return abs(b - lsp.baseline) < 0.051

    def initial_setup(lsp, gi):
        return lsp.bw if lsp.bw is not None else traffic[gi] / len(groups[gi])

    def state_key(left, res):
        return (left, tuple(sorted((i, round(v, 1)) for i, v in res.items() if round(v, 1))))

    def run_groups(left, res):
        """left: frozenset of group indices"""
        if not left:
            return True
        key = ("g",) + state_key(left, res)
        if key in dead:
            return False
        for gi in sorted(left):
            if run_group(gi, res, left - {gi}):
                return True
        dead.add(key)
        return False

    def run_group(gi, res, rest):
        group = groups[gi]
        routed = [x for x in group if x.path is not None]
        partial = 0 < len(routed) < len(group)
        return place(gi, tuple(range(len(group))), res, {}, partial, len(routed), rest)

    def place(gi, left, res, initial, partial, nrouted, rest):
        group = groups[gi]
        if not left:
            if partial:
                auto = tuple(j for j in range(len(group)) if group[j].path is not None and group[j].bw is None)
                return resignal(gi, auto, res, initial, nrouted, rest)
            return run_groups(rest, res)
        key = ("p", gi, left, tuple(sorted(initial.items())), rest) + state_key((), res)
        if key in dead:
            return False
        tried = set()
        for j in left:
            lsp = group[j]
            sig = (lsp.bw, lsp.path, lsp.reserved, lsp.baseline)
            if sig in tried:
                continue
            tried.add(sig)
            setup = initial_setup(lsp, gi)
            cands = candidates(lsp.key[0], lsp.key[1], setup, res)
            nl = tuple(x for x in left if x != j)
            if lsp.path is None:
                if not cands and place(gi, nl, res, initial, partial, nrouted, rest):
                    return True
                continue
            if not cands:
                continue
            final_here = not partial or lsp.bw is not None
            if final_here:
                if lsp.path in cands and baseline_ok(lsp, lsp.path, res):
                    if place(gi, nl, reserve(res, lsp.path, setup), initial, partial, nrouted, rest):
                        return True
            else:
                for c in cands:
                    if place(gi, nl, reserve(res, c, setup), {**initial, j: c}, partial, nrouted, rest):
                        return True
        dead.add(key)
        return False

    def resignal(gi, left, res, initial, nrouted, rest):
        if not left:
            return run_groups(rest, res)
        group = groups[gi]
        key = ("r", gi, left, tuple(sorted((j, initial[j]) for j in left)), rest) + state_key((), res)
        if key in dead:
            return False
        bw0 = traffic[gi] / len(group)
        bw1 = traffic[gi] / nrouted
        for j in left:
            lsp = group[j]
            cur = initial[j]
            back = {i: r1(bw0) for i in cur}
            cands = candidates(lsp.key[0], lsp.key[1], bw1, res, back, fewest=False)
            nl = tuple(x for x in left if x != j)
            if not cands:
                # keeps what it has
                if lsp.path == cur and abs(lsp.reserved - bw0) < 1e-6:
                    if resignal(gi, nl, res, initial, nrouted, rest):
                        return True
                continue
            if lsp.path in cands and abs(lsp.reserved - bw1) < 1e-6:
                if baseline_ok(lsp, lsp.path, res, back):
                    r = dict(res)
                    if bw0 != bw1:
                        for i in cur:
                            r[i] = r.get(i, 0) - r1(bw0)
                        r = reserve(r, lsp.path, bw1)
                    if resignal(gi, nl, r, initial, nrouted, rest):
                        return True
        dead.add(key)
        return False

    return run_groups(frozenset(range(len(groups))), {})


# ------------------------------------------------------------------ IGP shortcuts


def shortcut_paths(g, s, d, sc_nodes, lsps, metric):
    """The paths of an IGP demand: list of tuples of items ("I", ...) / ("L", ...)

    lsps: {(a, b): [keys of routed LSPs]}; metric: {key: effective metric}"""
    final = {}
    for p in g.paths(s, d):
        nodes = [s] + [g.edges[i].v for i in p]
        combos = [((), 0)]
        pos = 0
        while pos < len(p):
            n = nodes[pos]
            best = None
            if n in sc_nodes:
                for t in range(len(nodes) - 1, pos, -1):
                    c = lsps.get((n, nodes[t]))
                    if c:
                        m = min(metric[k] for k in c)
                        best = (t, [k for k in c if metric[k] == m], m)
                        break
            if best:
                t, ks, m = best
                combos = [(q + (("L",) + k,), w + m) for q, w in combos for k in ks]
                pos = t
            else:
                w0 = g.edges[p[pos]].cost
                combos = [(q + (("I",) + p[pos],), w + w0) for q, w in combos]
                pos += 1
            if len(combos) > MAX_PATHS:
                raise Discard()
        for q, w in combos:
            final[q] = w
    if not final:
        return []
    m = min(final.values())
    return [q for q in final if final[q] == m]


def prefix_shares(paths):
    """Equal split at every point over the distinct next items, given the items so far"""
    out = {}

    def f(ps, depth, share):
        nxt = {}
        for p in ps:
            if len(p) > depth:
                nxt.setdefault(p[depth], []).append(p)
        for item, sub in nxt.items():
            x = share / len(nxt)
            out[item] = out.get(item, 0) + x
            f(sub, depth + 1, x)

    f(paths, 0, Fraction(1))
    return out
