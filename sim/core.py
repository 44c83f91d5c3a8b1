"""
Seeded simulation runner.

One integer (VERIF_SEED) decides everything: plan(i) = gen(Rng(seed, property, i)) is a JSON document, and
executing a plan is a pure function of the plan and of the code in /repo. Every run is executed in a child
forked from this process, which has imported freegs but never used it, so runs cannot influence each other.
"""
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FREEGS_REPO", "/repo")
CPU_LIMIT = 200  # seconds of CPU per run; ordinary runs take well under 20
WALL_LIMIT = 600  # backup, for children which sleep for ever
MEM_LIMIT = 6 << 30


# --------------------------------------------------------------------------------------------- randomness
class Rng(random.Random):
    """Deterministic PRNG derived from a key."""

    def __new__(cls, *key):
        return super().__new__(cls)

    def __init__(self, *key):
        self.key = key
        h = hashlib.sha256(repr(key).encode()).digest()
        super().__init__(int.from_bytes(h, "big"))

    def sub(self, *key):
        return Rng(*(self.key + key))

    def flip(self, p=0.5):
        return self.random() < p

    def uni(self, a, b, digits=4):
        return round(self.uniform(a, b), digits)


# ---------------------------------------------------------------------------------------------- outcomes
class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(kind, message)
        self.kind, self.message = kind, message


class Skip(Exception):
    pass


class Sim:
    """What one run records."""

    def __init__(self, plan):
        self.plan = plan
        self.trace = hashlib.sha256()
        self.tail = []
        self.nevents = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.time = 0.0
        self.checks = 0
        self.violated = None

    def event(self, *what):
        """Append to the run's event log (never draws randomness, never reads a clock)"""
        s = " ".join(w if isinstance(w, str) else repr(w) for w in what)
        self.trace.update(s.encode() + b"\n")
        self.nevents += 1
        self.tail.append(s[:200])
        if len(self.tail) > 60:
            del self.tail[0]

    def fault(self, kind, n=1):
        """A fault which actually fired"""
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.event("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def check(self, ok, kind, message=""):
        """An invariant"""
        self.checks += 1
        if not ok:
            if callable(message):
                message = message()
            self.event("VIOLATION", kind)
            v = Violation(kind, str(message)[:2000])
            if self.violated is None:
                self.violated = v  # reported even if the code under test swallows the exception
            raise v

    def skip(self, reason):
        raise Skip(reason)


def _in_repo(tb):
    prefix = os.path.join(REPO, "freegs") + os.sep
    for frame, _ in traceback.walk_tb(tb):
        if frame.f_code.co_filename.startswith(prefix):
            return True
    return False


def execute(module, plan):
    """Run a plan in this process, return the outcome as a JSON-able dictionary"""
    sim = Sim(plan)
    out = {"violation": None, "skip": None, "harness": None}
    try:
        module.run(plan, sim)
    except Violation as v:
        out["violation"] = [v.kind, v.message]
    except Skip as s:
        out["skip"] = str(s)
    except BaseException as e:
        text = traceback.format_exc()[-1800:]
        if _in_repo(e.__traceback__):
            # The code under test failed in a situation where the plan requires it to succeed
            kind = "unexpected-" + type(e).__name__
            sim.event("VIOLATION", kind)
            out["violation"] = [kind, text]
        else:
            out["harness"] = text
    if sim.violated is not None:
        out["violation"] = [sim.violated.kind, sim.violated.message]
        out["skip"] = out["harness"] = None
    out.update(
        digest=sim.trace.hexdigest(), nevents=sim.nevents, faults=sim.faults, probes=sim.probes,
        states=sorted(sim.states), time=sim.time, checks=sim.checks, tail=sim.tail[-25:] if out["violation"] else [],
    )
    return out


def seed_process(n=0):
    """Pristine, fixed state of every random source of this process"""
    import numpy as np

    random.seed(n)
    np.random.seed(n)


def in_child(fn):
    """fn() evaluated in a copy of this process which then ends; the result comes back pickled"""
    import pickle

    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException as e:
                out = (False, (type(e).__name__, traceback.format_exc()[-1500:], _in_repo(e.__traceback__)))
            with os.fdopen(wfd, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, value = pickle.loads(data)
    if ok:
        return value
    if value[2]:
        raise Violation("unexpected-" + value[0], value[1])
    raise RuntimeError("in child: " + value[1])


# ------------------------------------------------------------------------------------------ child handling
def _child(module, plan, wfd, scratch):
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 20))
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 0)
        os.dup2(null, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(null, 2)
        d = os.path.join(scratch, "r%d" % os.getpid())
        os.mkdir(d)
        os.chdir(d)
        seed_process()
        t0 = time.process_time()
        out = execute(module, plan)
        out["cpu"] = time.process_time() - t0
        data = json.dumps(out).encode()
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
        os._exit(0)
    except BaseException:
        try:
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(97)


class Pool:
    """Executes plans in forked children, at most `workers` at a time"""

    def __init__(self, module, workers, scratch):
        self.module, self.workers, self.scratch = module, workers, scratch
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def submit(self, tag, plan):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for job in self.live.values():
                try:
                    os.close(job["fd"])
                except OSError:
                    pass
            _child(self.module, plan, w, self.scratch)
        os.close(w)
        os.set_blocking(r, False)
        self.live[r] = {"tag": tag, "pid": pid, "fd": r, "data": b"", "t0": time.monotonic(), "plan": plan}
        self.sel.register(r, selectors.EVENT_READ)

    def wait(self):
        """Returns a list of finished (tag, plan, outcome)"""
        done = []
        while not done and self.live:
            for key, _ in self.sel.select(timeout=1.0):
                job = self.live[key.fd]
                try:
                    chunk = os.read(key.fd, 1 << 16)
                except BlockingIOError:
                    continue
                if chunk:
                    job["data"] += chunk
                else:
                    done.append(self._finish(job))
            for job in list(self.live.values()):
                if time.monotonic() - job["t0"] > WALL_LIMIT:
                    os.kill(job["pid"], signal.SIGKILL)
                    job["timeout"] = True
                    done.append(self._finish(job))
        return done

    def _finish(self, job):
        self.sel.unregister(job["fd"])
        os.close(job["fd"])
        del self.live[job["fd"]]
        _, status = os.waitpid(job["pid"], 0)
        blank = {"skip": None, "harness": None, "digest": "", "nevents": 0, "faults": {}, "probes": {},
                 "states": [], "time": 0.0, "checks": 0, "tail": []}
        if job.get("timeout") or (os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL)):
            out = dict(blank, violation=["does-not-terminate", "run used more than %d s CPU" % CPU_LIMIT])
        elif os.WIFSIGNALED(status):
            out = dict(blank, violation=["process-crash", "killed by signal %d" % os.WTERMSIG(status)])
        else:
            try:
                out = json.loads(job["data"].decode())
            except ValueError:
                out = dict(blank, violation=None, harness="child exited with status %r" % status)
        return job["tag"], job["plan"], out

    def kill(self):
        for job in list(self.live.values()):
            try:
                os.kill(job["pid"], signal.SIGKILL)
            except OSError:
                pass
            self._finish(job)

    def one(self, plan):
        assert not self.live
        self.submit(None, plan)
        return self.wait()[0][2]


# ----------------------------------------------------------------------------------------------- minimiser
def list_reductions(lst):
    """Smaller versions of a list, big reductions first"""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            yield lst[:start] + lst[start + size:]
        size //= 2


def default_shrink(plan, keys):
    for key in keys:
        value = plan
        path = key.split(".")
        try:
            for p in path:
                value = value[p]
        except KeyError:
            continue
        if not isinstance(value, list):
            continue
        for smaller in list_reductions(value):
            new = copy.deepcopy(plan)
            tgt = new
            for p in path[:-1]:
                tgt = tgt[p]
            tgt[path[-1]] = smaller
            yield new


def minimise(pool, module, plan, out, max_runs=60, max_wall=90):
    shrink = getattr(module, "shrink", None)
    keys = getattr(module, "SHRINK", [])
    kind = out["violation"][0]
    t0, runs, steps = time.monotonic(), 0, 0
    if kind == "does-not-terminate":
        return plan, out, 0, 0
    progress = True
    while progress:
        progress = False
        candidates = list(default_shrink(plan, keys))
        if shrink:
            candidates += list(shrink(plan))
        for cand in candidates:
            if runs >= max_runs or time.monotonic() - t0 > max_wall:
                return plan, out, runs, steps
            runs += 1
            new = pool.one(cand)
            if new["violation"] and new["violation"][0] == kind:
                plan, out = cand, new
                steps += 1
                progress = True
                break
    return plan, out, runs, steps


# ------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    """Lines 'known: property=<id> kind=<violation kind> <text>' suppress exactly that violation"""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            f = line.split()
            if len(f) > 2 and f[0] == "known:" and f[1] == "property=" + prop and f[2].startswith("kind="):
                known.append((f[2][5:], " ".join(f[3:])))
    return known


# -------------------------------------------------------------------------------------------------- driver
def load(prop):
    return importlib.import_module("sim." + prop.lower())


def merge(total, d):
    for k, v in d.items():
        total[k] = total.get(k, 0) + v


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    runs = None
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    quiet = False
    digests = None
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--runs":
            runs = int(args.pop(0))
        elif a == "--workers":
            workers = int(args.pop(0))
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--quiet":
            quiet = True
        elif a == "--digests":
            digests = args.pop(0)
        else:
            raise SystemExit("unknown argument " + a)

    t0 = time.monotonic()
    sys.path.insert(0, REPO)
    import freegs  # noqa: F401  (the zygote imports the code under test, from /repo's working tree)

    assert os.path.realpath(freegs.__file__).startswith(os.path.realpath(REPO) + os.sep), freegs.__file__
    assert "pytest" not in sys.modules
    module = load(prop)
    scratch = tempfile.mkdtemp(prefix="freegs-sim-")
    try:
        pool = Pool(module, workers, scratch)
        if replay:
            return do_replay(pool, prop, replay, quiet)
        return search(pool, module, prop, tier, seed, runs, t0, quiet, digests)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(pool, prop, path, quiet):
    doc = json.load(open(path))
    out = pool.one(doc["plan"])
    if out["violation"]:
        same = out["violation"][0] == doc["violation"][0] and out["digest"] == doc["digest"]
        if not quiet:
            print("replayed: %s: %s" % tuple(out["violation"]))
            print("trace digest %s: %s" % (out["digest"][:16], "identical" if same else "DIFFERENT"))
            for line in out["tail"]:
                print("   |", line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if out["harness"]:
        print("harness error in replay: " + out["harness"])
        return 2
    print("replay of %s: property held (skip=%s)" % (path, out["skip"]))
    return 0


def search(pool, module, prop, tier, seed, runs, t0, quiet, digests):
    nruns = runs or module.RUNS[tier]
    budget = 640 if tier == "quick" else 6 * 3600
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    print("%s %s VERIF_SEED=%d runs=%d workers=%d" % (prop, tier, seed, nruns, pool.workers))
    known = known_findings(prop)
    known_seen = {}
    results = {}
    flaky = 0
    nxt = 0
    found = None  # (index, plan, outcome)
    harness = []
    stopped = None
    while True:
        while nxt < nruns and len(pool.live) < pool.workers and found is None and stopped is None:
            if time.monotonic() - t0 > budget:
                stopped = "wall budget of %d s reached" % budget
                break
            pool.submit(nxt, module.gen(Rng(seed, prop, nxt), tier))
            nxt += 1
        if not pool.live:
            break
        for index, plan, out in pool.wait():
            results[index] = out
            if out["harness"]:
                harness.append((index, out["harness"]))
            v = out["violation"]
            if v:
                k = [x for x in known if x[0] == v[0]]
                if k:
                    known_seen[v[0]] = k[0][1]
                    out["violation"] = None
                elif found is None or index < found[0]:
                    found = (index, plan, out)
        if found is not None and not pool.live:
            # Confirm in fresh children before believing it
            index, plan, out = found
            again = None
            for _ in range(3):
                again = pool.one(plan)
                if again["violation"]:
                    break
            if not again["violation"]:
                flaky += 1
                print("note: violation of run %d did not reproduce: %s" % (index, out["violation"]), file=sys.stderr)
                results[index]["violation"] = None
                found = None
                continue
            found = (index, plan, again)
            break

    skipped = [i for i, o in results.items() if o["skip"]]
    if found is None and not harness and len(results) >= 8 and len(skipped) > 0.4 * len(results):
        # Fault-free set-up of worlds which work on a healthy tree
        reasons = sorted({results[i]["skip"] for i in skipped})
        index = min(skipped)
        found = (index, module.gen(Rng(seed, prop, index), tier),
                 dict(results[index], violation=["fault-free-setup-fails", "%d of %d runs: %s" % (len(skipped), len(results), reasons[:3])]))

    nviol = 0
    path = None
    if found is not None:
        nviol = 1
        index, plan, out = found
        original = plan
        mruns = msteps = 0
        if out["violation"][0] != "fault-free-setup-fails":
            plan, out, mruns, msteps = minimise(pool, module, plan, out)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop, seed, index))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "run": index, "tier": tier, "violation": out["violation"],
                       "digest": out["digest"], "minimise_runs": mruns, "minimise_steps": msteps, "plan": plan,
                       "original_plan": original, "trace_tail": out["tail"]}, f, indent=1)
        print("run %d violates %s: %s: %s" % (index, prop, out["violation"][0], out["violation"][1]))
        print("minimised with %d runs, %d reductions" % (mruns, msteps))
        if out["violation"][0] != "fault-free-setup-fails":
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path, "--quiet"],
                               capture_output=True, text=True)
            print("replay in a fresh process: " + ("reproduced" if r.returncode == 1 else "NOT reproduced (%d)" % r.returncode))
    wall = time.monotonic() - t0
    write_evidence(module, prop, tier, seed, results, nviol, flaky, wall, stopped, nruns, known_seen, pool.workers)
    if digests:
        with open(digests, "w") as f:
            json.dump({str(i): o["digest"] for i, o in sorted(results.items())}, f)
    if found is not None:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness:
        print("harness error in run %d: %s" % harness[0])
        return 2
    for kind, text in sorted(known_seen.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, text, kind))
    faults = {}
    for o in results.values():
        merge(faults, o["faults"])
    slow = sorted(((o.get("cpu", 0.0), i) for i, o in results.items()), reverse=True)[:4]
    print("slowest runs (CPU s, run): " + ", ".join("%.1f %d" % x for x in slow))
    print("%s held on %d runs (%d skipped) in %.1f s; faults fired: %s" % (prop, len(results), len(skipped), wall, faults))
    return 0


def write_evidence(module, prop, tier, seed, results, nviol, flaky, wall, stopped, nruns, known_seen, workers):
    faults, probes, states, digests = {}, {}, set(), set()
    simtime, checks, events = 0.0, 0, 0
    nontrivial = set()
    for o in results.values():
        merge(faults, o["faults"])
        merge(probes, o["probes"])
        states.update(o["states"])
        simtime += o["time"]
        checks += o["checks"]
        events += o["nevents"]
        digests.add(o["digest"])
        if not o["skip"] and o["checks"] > 0 and o["nevents"] > 1:
            nontrivial.add(o["digest"])
    samples = []
    for i in sorted(results)[:2]:
        plan = module.gen(Rng(seed, prop, i), tier)
        samples.append({"run": i, "plan": plan, "events": results[i]["nevents"], "faults": results[i]["faults"],
                        "trace_digest": results[i]["digest"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": "one evaluation = one simulated run (plan drawn from the seed, executed in a fresh process). Counted as "
                    "distinct and non-trivial: runs with different event logs (sha256 of the log) which were not skipped, "
                    "logged more than one event and evaluated at least one invariant. " + module.RULE,
            "samples": samples,
            "skipped": sum(1 for o in results.values() if o["skip"]),
            "skip_reasons": {r: sum(1 for o in results.values() if o["skip"] == r) for r in sorted({o["skip"] for o in results.values() if o["skip"]})},
            "planned_runs": nruns,
            "stopped_early": stopped,
            "invariant_evaluations": checks,
            "events": events,
            "distinct_traces": len(digests),
            "distinct_states": len(states),
            "state_measure": getattr(module, "STATE_MEASURE", "sha256 of the state signatures recorded by the runs"),
            "runs_per_hour": round(len(results) / wall * 3600) if wall > 0 else None,
            "seeds_per_hour": round(len(results) / wall * 3600) if wall > 0 else None,
            "simulated_time": simtime,
            "simulated_time_unit": getattr(module, "TIME_UNIT", "simulated steps (device operations, traced lines, solver calls)"),
            "faults_fired": faults,
            "probes": probes,
            "workers": workers,
            "unreproduced": flaky,
            "known_findings_seen": known_seen,
            "real_components": module.REAL,
            "stub_components": module.STUB,
        },
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
