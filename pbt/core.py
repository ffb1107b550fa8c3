"""Engine: case runner, sharding over processes, shrinking, evidence, command line."""
import copy
import io
import json
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = 60  # seconds of CPU time one case (milliseconds, normally) may take


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, kind=""):
        super().__init__(msg)
        self.kind = kind or msg.split(":")[0][:60]


class Discard(Exception):
    """The case is outside of the domain (counted, never a verdict)."""


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


class Ctx:
    """Collects what a case exercised."""

    def __init__(self):
        self.tags = {}
        self.nontrivial = False
        self.evals = 0

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True

    def check(self, cond, msg, *args):
        self.evals += 1
        if not cond:
            raise Violation(msg % args if args else msg)


def _alarm(signum, frame):
    raise CaseTimeout()


def classify_exception(e):
    """A crash counts against the code under test unless it arises inside of the harness' own
    oracle code (ref.py, gen.py, core.py) without any frame of the code under test below it."""
    tb = traceback.extract_tb(e.__traceback__)
    files = [os.path.abspath(f.filename) for f in tb]
    if any(f.startswith(os.path.join(REPO, "pyNTM")) for f in files):
        return "crash"
    last = [f for f in files if f.startswith(VERIF)]
    last = os.path.basename(last[-1]) if last else ""
    if last in ("ref.py", "gen.py", "core.py") or isinstance(e, (MemoryError, KeyboardInterrupt)):
        return "harness"
    return "crash"


def forked(f, limit=CPU_LIMIT * 3):
    """f() evaluated in a child process that inherits the state of this one; what it returns is
    pickled. Raises what f raises, HarnessError if the child dies."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                data = pickle.dumps((True, f()))
            except BaseException as e:
                data = pickle.dumps((False, type(e).__name__, str(e), getattr(e, "kind", "")))
            with os.fdopen(w, "wb") as out:
                out.write(data)
        except BaseException:
            code = 9
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as inp:
        data = inp.read()
    os.waitpid(pid, 0)
    if not data:
        return None
    x = pickle.loads(data)
    if x[0]:
        return x[1]
    if x[1] == "Violation":
        raise Violation(x[2], x[3])
    if x[1] == "Discard":
        raise Discard(x[2])
    raise HarnessError("%s in a child process: %s" % (x[1], x[2]))


def run_case(prop, spec, ctx=None):
    """Returns None (holds), ("violation", kind, msg); raises HarnessError"""
    ctx = ctx or Ctx()
    if not prop.isolated:
        return run_case_here(prop, spec, ctx)

    def child():
        return run_case_here(prop, spec, ctx), ctx

    x = forked(child)
    if x is None:
        return ("violation", "timeout", "no result after %s seconds" % (CPU_LIMIT * 3))
    ctx.__dict__.update(x[1].__dict__)
    return x[0]


def run_case_here(prop, spec, ctx):
    from . import env

    env.begin_case(spec)
    out, sys.stdout = sys.stdout, NullOut()
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        prop.run(copy.deepcopy(spec), ctx)
        return None
    except Violation as e:
        return ("violation", e.kind, str(e))
    except Discard:
        ctx.tag("discarded")
        return None
    except CaseTimeout:
        return ("violation", "timeout", "no result after %s CPU seconds" % CPU_LIMIT)
    except HarnessError:
        raise
    except RecursionError as e:
        return ("violation", "RecursionError", repr(e))
    except Exception as e:
        if classify_exception(e) == "harness":
            raise HarnessError(
                "harness error on %s: %s" % (prop.id, traceback.format_exc())
            ) from e
        tb = traceback.extract_tb(e.__traceback__)
        where = [
            "%s:%s" % (os.path.basename(f.filename), f.name)
            for f in tb
            if f.filename.startswith(os.path.join(REPO, "pyNTM"))
        ]
        msg = "unexpected %s: %s (in %s)" % (
            type(e).__name__,
            str(e)[:300],
            " > ".join(where[-3:]) or "caller of the API",
        )
        return ("violation", "crash " + type(e).__name__, msg)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        sys.stdout = out
        env.end_case()


# --------------------------------------------------------------------- shrinking


def _paths(value, prefix=()):
    """Every position in a JSON value, outermost first"""
    yield prefix, value
    if isinstance(value, dict):
        for k in sorted(value):
            yield from _paths(value[k], prefix + (k,))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from _paths(v, prefix + (i,))


def _get(spec, path):
    for p in path:
        spec = spec[p]
    return spec


def _with(spec, path, value):
    spec = copy.deepcopy(spec)
    if not path:
        return value
    t = _get(spec, path[:-1])
    t[path[-1]] = value
    return spec


def _scalar_candidates(v):
    if isinstance(v, bool):
        return [False] if v else []
    if isinstance(v, (int, float)):
        c = []
        for x in (0, 1, 2, 10, 100):
            if x != v and abs(x) < abs(v):
                c.append(x)
        if isinstance(v, float) and v == int(v):
            c.append(int(v))
        if isinstance(v, int) and abs(v) > 3:
            c.append(v // 2)
        return c
    return []


def shrink(prop, spec, kind, budget_s=25, max_evals=3000):
    t0 = time.time()
    n = [0]

    def normal(s):
        try:
            return prop.normalise(s)
        except Exception:  # a candidate that makes no sense
            return None

    def fails(s):
        if n[0] >= max_evals or time.time() - t0 > budget_s:
            return False
        n[0] += 1
        try:
            s = prop.normalise(copy.deepcopy(s))
            if s is None:
                return False
            r = run_case(prop, s)
        except Exception:
            return False
        return r is not None and (r[1] == kind)

    best = normal(copy.deepcopy(spec))
    if best is None or not fails(best):
        return spec
    changed = True
    while changed and time.time() - t0 < budget_s and n[0] < max_evals:
        changed = False
        # drop list elements, biggest chunks first
        for path, v in list(_paths(best)):
            if not isinstance(v, list) or not v or path and path[0] in prop.frozen:
                continue
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            size = len(cur)
            while size >= 1:
                i = 0
                while i < len(cur):
                    cand = normal(_with(best, path, cur[:i] + cur[i + size:]))
                    if cand is not None and cand != best and fails(cand):
                        best, changed = cand, True
                        try:
                            cur = _get(best, path)
                        except (KeyError, IndexError, TypeError):
                            cur = []
                        if not isinstance(cur, list):
                            cur = []
                    else:
                        i += size
                size //= 2
        # drop optional dict values and simplify scalars
        for path, v in list(_paths(best)):
            if not path or path[0] in prop.frozen:
                continue
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            for c in _scalar_candidates(cur):
                cand = normal(_with(best, path, c))
                if cand is not None and cand != best and fails(cand):
                    best, changed = cand, True
                    break
    return best


# --------------------------------------------------------------------- running


def case_rng(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def make_spec(prop, seed, i):
    rng = case_rng(seed, prop.id, i)
    try:
        return prop.gen(rng, i)
    except Exception as e:
        raise HarnessError("generator of %s failed on case %s: %s" % (prop.id, i, traceback.format_exc())) from e


def canon(spec):
    s = dict(spec)
    s.pop("salt", None)
    return json.dumps(s, sort_keys=True)


def worker(prop, seed, shard, shards, cases, deadline, q):
    try:
        tags, seen, evals, ran, samples = {}, set(), 0, 0, []
        failure = None
        for i in range(shard, cases, shards):
            if time.time() > deadline:
                break
            spec = make_spec(prop, seed, i)
            ctx = Ctx()
            r = run_case(prop, spec, ctx)
            ran += 1
            evals += ctx.evals
            for k, v in ctx.tags.items():
                tags[k] = tags.get(k, 0) + (1 if v else 0)
            if ctx.nontrivial:
                seen.add(hash(canon(spec)))
                if len(samples) < 2:
                    samples.append(spec)
            if r is not None:
                failure = (i, spec, r)
                break
        q.put(("done", shard, ran, evals, tags, seen, samples, failure))
    except BaseException as e:
        q.put(("error", shard, "%s\n%s" % (e, traceback.format_exc())))


def load_known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == pid]


def main_check(prop, tier, seed, cases=None, shards=None, wall=None):
    t0 = time.time()
    total = cases or prop.cases[tier]
    shards = shards or min(int(os.environ.get("VERIF_PROCS", os.cpu_count() or 4)), 8)
    wall = wall or prop.wall[tier]
    known = load_known(prop.id)
    for k in known:
        with open(os.path.join(VERIF, k["replay"])) as f:
            data = json.load(f)
        r = run_case(prop, data["spec"])
        if r is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
        else:
            print("note: known finding %s of %s does not reproduce any more" % (k["id"], prop.id))
    ctxm = multiprocessing.get_context("fork")
    q = ctxm.Queue()
    deadline = t0 + wall
    procs = [
        ctxm.Process(target=worker, args=(prop, seed, s, shards, total, deadline, q))
        for s in range(shards)
    ]
    for p in procs:
        p.start()
    results = []
    while len(results) < shards:
        try:
            results.append(q.get(timeout=5))
        except Exception:
            if all(not p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.terminate()
    errors = [r for r in results if r[0] == "error"]
    if errors or len(results) < shards:
        print("HARNESS ERROR in %s" % prop.id)
        for e in errors[:2]:
            print(e[2])
        return 3
    ran = sum(r[2] for r in results)
    evals = sum(r[3] for r in results)
    tags, seen, samples, failures = {}, set(), [], []
    for r in sorted(results, key=lambda r: r[1]):
        for k, v in r[4].items():
            tags[k] = tags.get(k, 0) + v
        seen |= r[5]
        samples += r[6]
        if r[7]:
            failures.append(r[7])
    samples.sort(key=lambda s: len(canon(s)))
    code = 0
    replay = None
    if failures:
        failures.sort(key=lambda f: f[0])
        i, spec, (_, kind, msg) = failures[0]
        spec = shrink(prop, spec, kind)
        r = run_case(prop, spec)
        msg = r[2] if r else msg
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop.id, seed, i))
        with open(replay, "w") as f:
            json.dump({"property": prop.id, "message": msg, "kind": kind, "spec": spec}, f, indent=1, sort_keys=True)
        print("property %s is broken: %s" % (prop.id, msg))
        print("reproduce: %s/check %s --replay %s" % (VERIF, prop.id, replay))
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
        code = 1
    evidence = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(seen),
            "rule": prop.rule,
            "oracle_comparisons": evals,
            "classes": {k: tags[k] for k in sorted(tags)},
            "samples": [json.loads(json.dumps(s)) for s in samples[:3]],
            "cases_planned": total,
        },
        "violations": 1 if failures else 0,
        "known_findings": [k["id"] for k in known],
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop.id), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print(
        "%s %s seed=%s: %s cases (%s distinct non-trivial), %s comparisons, %.1f s, %s"
        % (prop.id, tier, seed, ran, len(seen), evals, time.time() - t0, "VIOLATED" if failures else "held")
    )
    return code


def main_replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    r = run_case(prop, data["spec"])
    if r is None:
        print("%s holds on %s" % (prop.id, path))
        return 0
    print(r[2])
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1


class Prop:
    """Base of the properties."""

    id = None
    isolated = False  # run each case in a process of its own
    cases = {"quick": 2000, "thorough": 40000}
    wall = {"quick": 240, "thorough": 3000}
    rule = ""
    assumptions = []
    frozen = ("salt",)  # top-level keys the shrinker leaves alone

    def gen(self, rng, i):
        raise NotImplementedError

    def run(self, spec, ctx):
        raise NotImplementedError

    def normalise(self, spec):
        return spec
