"""Case runner, monitors' event counters, verdicts, evidence and replay files.

A check module defines
    ID, LEVEL, RULE
    FLOORS   {counter: minimum number of events that must have been judged} (quick tier)
    plan(ctx)          -> list of (key, params); key is a short string naming the case
    case(ctx, rng, key, params)   runs one case; reports through ctx.require / ctx.fail / ctx.count
    known(ctx)         optional: probes of recorded findings, {finding key: callable -> bool still failing}
"""
import os
import sys
import json
import time
import random
import signal
import hashlib
import resource
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_REFILL_S = 8.0       # a plan that is through sooner than this starts again with other random choices
THOROUGH_REFILL_S = 300.0
CPU_LIMIT_S = 120.0       # CPU seconds for one case (ordinary cases take well under 1 s)
WALL_LIMIT_S = 420.0      # watchdog for one case: inconclusive
MEMORY_LIMIT = 8 << 30     # what a worker may map beyond what it starts with
CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail or {}


class Inconclusive(Exception):
    pass


class CpuLimit(BaseException):
    pass


class WallLimit(BaseException):
    pass


class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.thorough = tier == "thorough"
        self.reset()

    def reset(self):
        self.counts = {}
        self.distinct = set()
        self.samples = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- monitor events -------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def saw(self, *what):
        """Record a distinct non-trivial situation."""
        self.distinct.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def sample(self, what, limit=3):
        if len(self.samples) < limit:
            self.samples.append(what)

    def fail(self, msg, **detail):
        raise Violation(msg, {k: _short(v) for k, v in detail.items()})

    def require(self, cond, msg, **detail):
        if not cond:
            self.fail(msg, **detail)

    def equal(self, got, want, msg, **detail):
        if not (got == want):
            self.fail(msg, got=got, want=want, **detail)

    def raises(self, exc, f, msg, **detail):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            self.fail(msg + ": raised %s instead of the documented error" % type(e).__name__, error=e, **detail)
        self.fail(msg + ": no error raised", result=r, **detail)


def _short(v, n=600):
    try:
        s = repr(v)
    except Exception as e:
        s = "<unreprable %s: %s>" % (type(v).__name__, e)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def case_rng(prop, seed, key):
    return random.Random("%s:%s:%s" % (prop, seed, key))


def _on_cpu(sig, frame):
    raise CpuLimit()


def _on_wall(sig, frame):
    raise WallLimit()


def _tb():
    """The traceback in brief. Not format_exc, which for a NameError looks at the attributes of the objects involved, and with
    an object that recurses without end when asked for one it ends the process."""
    try:
        _, e, tb = sys.exc_info()
        return ("".join(traceback.format_tb(tb)) + "%s: %s" % (type(e).__name__, _short(str(e), 500)))[-3000:]
    except BaseException:
        return "(no traceback)"


def memory_is_short():
    """whether a failed allocation may be the machine's fault rather than that of the code which asked for it"""
    try:
        for line in open("/proc/meminfo"):
            if line.startswith("MemAvailable:"):
                return int(line.split()[1]) < 3 << 20
    except OSError:
        pass
    return True


def run_case(mod, ctx, key, params):
    """-> None or a dict describing the violation / inconclusive result."""
    rng = case_rng(mod.ID, ctx.seed, key)
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.signal(signal.SIGALRM, _on_wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CPU_LIMIT_S", CPU_LIMIT_S))
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT_S)
    try:
        mod.case(ctx, rng, key, params)
        return None
    except Violation as v:
        return dict(kind="violation", key=key, msg=v.msg, detail=v.detail, tb=_tb())
    except Inconclusive as e:
        return dict(kind="inconclusive", key=key, msg=str(e), detail={}, tb="")
    except CpuLimit:
        return dict(kind="violation", key=key, msg="did not terminate: CPU limit per case exceeded", detail={},
                    tb=_tb())
    except WallLimit:
        return dict(kind="inconclusive", key=key, msg="wall-clock watchdog fired", detail={},
                    tb=_tb())
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError as e:
        if not memory_is_short():
            return dict(kind="violation", key=key, msg="unexpected MemoryError: " + _short(str(e), 300), detail={}, tb=_tb())
        return dict(kind="inconclusive", key=key, msg="out of memory", detail={}, tb=_tb())
    except BaseException as e:
        # In a case everything runs the library on inputs the property covers; an exception nobody
        # expected means an operation that must succeed did not.
        return dict(kind="violation", key=key, msg="unexpected %s: %s" % (type(e).__name__, _short(str(e), 300)),
                    detail={}, tb=_tb())
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(args):
    mod, ctx, todo, deadline, refill, stop, current = args
    ctx.reset()
    try:
        pages = int(open("/proc/self/statm").read().split()[0])
        resource.setrlimit(resource.RLIMIT_AS, (pages * resource.getpagesize() + MEMORY_LIMIT,) * 2)
    except (OSError, ValueError):
        pass
    bad = []
    done = 0

    def cases():
        yield from todo
        # time left over goes into the same plan again, with other random choices
        again = [(k, p) for k, p in todo if not k.startswith(getattr(mod, "ONCE", ("~",)))]
        for r in range(1, 100000):
            for key, params in again:
                if time.time() > refill:
                    return
                yield "%s~%d" % (key, r), params

    for key, params in cases():
        if time.time() > deadline or stop.value:
            break
        current.value = key.encode()[:500]
        r = run_case(mod, ctx, key, dict(params))
        done += 1
        if r is not None:
            bad.append(r)
            if r["kind"] == "violation":
                stop.value = 1
                break
    return dict(done=done, bad=bad, counts=ctx.counts, distinct=ctx.distinct, samples=ctx.samples)


def _worker_main(conn, args):
    try:
        conn.send(_worker(args))
    except BaseException as e:
        try:
            conn.send(dict(error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run(mod, ctx, only=None, jobs=None):
    t0 = time.time()
    budget = float(os.environ.get("RV_BUDGET_S", 0)) or ctx.n(getattr(mod, "QUICK_S", 400), getattr(mod, "THOROUGH_S", 600))
    plan = list(mod.plan(ctx))
    keys = [k for k, _ in plan]
    assert len(set(keys)) == len(keys), "duplicate case keys"
    if only is not None:
        plan = [(only, p) for k, p in plan if k == only.split("~")[0]]
        if not plan:
            print("no such case: %s" % only)
            return 2
    # spread evenly over workers, and in an order not biased to one area should time run out
    random.Random(ctx.seed).shuffle(plan)
    jobs = jobs or min(8, max(1, len(plan)))
    if getattr(mod, "SERIAL", False):
        jobs = 1
    deadline = t0 + budget
    refill = 0 if only is not None else t0 + (float(os.environ.get("RV_REFILL_S", 0)) or ctx.n(QUICK_REFILL_S, THOROUGH_REFILL_S))
    stop = mp.Value("i", 0)
    results = []
    procs = []
    mpc = mp.get_context("fork")
    for j in range(jobs):
        a, b = mpc.Pipe(duplex=False)
        current = mp.Array("c", 512)
        p = mpc.Process(target=_worker_main, args=(b, (mod, ctx, plan[j::jobs], deadline, refill, stop, current)))
        p.start()
        b.close()
        procs.append((p, a, current))
    errors, crashes = [], []
    for p, a, current in procs:
        try:
            r = a.recv()
            if "error" in r:
                errors.append(r["error"])
            else:
                results.append(r)
            p.join()
        except EOFError:
            p.join()
            key = current.value.decode()
            if -(p.exitcode or 0) in CRASHES and key:
                # nothing but the code under test runs native code on the data of a case
                crashes.append(dict(kind="violation", key=key, msg="the process crashed with signal %d" % -p.exitcode, detail={}, tb=""))
            else:
                errors.append("worker died in case %s, exit code %s" % (key, p.exitcode))

    counts, distinct, samples, bad, done = {}, set(), [], [], 0
    for r in results:
        done += r["done"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        distinct |= r["distinct"]
        samples += r["samples"]
        bad += r["bad"]
    violations = [b for b in bad if b["kind"] == "violation"] + crashes
    inconclusive = [b for b in bad if b["kind"] != "violation"]

    # -- recorded findings ----------------------------------------------
    known_lines = []
    listed = load_known(mod.ID)
    probes = mod.known(ctx) if hasattr(mod, "known") else {}
    for k in listed:
        if k["key"] in probes:
            try:
                still = probes[k["key"]]()
            except Exception:
                still = True
            if still:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
    unlisted = [k for k in probes if k not in [x["key"] for x in listed]]
    for k in unlisted:
        if probes[k]():
            violations.append(dict(kind="violation", key="probe:" + k, msg="unlisted finding " + k, detail={}, tb=""))

    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "exploration")
    coverage = dict(evaluations=done, distinct_nontrivial=len(distinct), rule=mod.RULE,
                    samples=samples[:4] or ["(none)"], cases_planned=len(plan), monitor_events=counts)
    if getattr(mod, "EXHAUSTIVE", False) and done >= len(plan):
        coverage["exhaustive"] = True
    ev = dict(property=mod.ID, tier=ctx.tier, seed=ctx.seed, level=level, coverage=coverage,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for line in known_lines:
        print(line)
    if violations:
        v = violations[0]
        path = write_replay(mod, ctx, v)
        print("%s: %s" % (v["key"], v["msg"]))
        for k, d in v["detail"].items():
            print("    %s = %s" % (k, d))
        if os.environ.get("RV_TB"):
            print(v["tb"])
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    if errors:
        print("ERROR in harness: " + "\n".join(errors))
        return 2
    if inconclusive:
        for b in inconclusive[:5]:
            print("INCONCLUSIVE %s: %s" % (b["key"], b["msg"]))
        return 2
    if only is None:
        for name, floor in getattr(mod, "FLOORS", {}).items():
            if counts.get(name, 0) < floor:
                print("INCONCLUSIVE: monitor saw only %d '%s' events (floor %d), %d of %d cases ran"
                      % (counts.get(name, 0), name, floor, done, len(plan)))
                return 2
    print("%s held: %d cases, %d distinct situations, events %s, %.1fs"
          % (mod.ID, done, len(distinct), json.dumps(counts, sort_keys=True), wall))
    return 0


def write_replay(mod, ctx, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-s%d-%s.json" % (mod.ID, ctx.seed, hashlib.sha1(v["key"].encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(dict(property=mod.ID, seed=ctx.seed, tier=ctx.tier, case=v["key"], message=v["msg"],
                       detail=v["detail"], traceback=v["tb"],
                       replay="bin/check %s --tier %s --seed %d --case '%s'" % (mod.ID, ctx.tier, ctx.seed, v["key"])),
                  f, indent=1, default=str)
    return path


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == prop]
