"""P05: the optimiser returns the best solution it ever evaluated"""
import numpy as np

from .sched import CALL_EXC

RUNS = {"quick": 1500, "thorough": 60000}
SHRINK = ["scores", "faults"]
RULE = "A plan is a population size, controls, differential weight, crossover probability, a random stream (numpy's, or one with extreme " \
       "draws), a scoring (scripted per evaluation with ties, infinite and repeated scores, or a function of the controls), and failures of the " \
       "evaluation, the copying or the monitor at a seeded call, after which the optimisation is repeated."
STATE_MEASURE = "distinct (population size, controls, generation, improved slots, fault outcome) signatures"
TIME_UNIT = "evaluations"
REAL = ["freegs.optimiser"]
STUB = ["optimised objects, controls, measure and monitor (recording stubs)", "random stream (seeded, or extreme draws)"]
ASSUMPTIONS = ["scores are ordered (no NaN)", "the population is reported in a fixed order of members"]


class Obj:
    """An opaque object with controls. Copies are only possible through deepcopy"""

    hook = None

    def __init__(self, v):
        self.v = list(v)
        self.tag = None

    def __deepcopy__(self, memo):
        if Obj.hook:
            Obj.hook()
        new = Obj(self.v)
        new.tag = self.tag
        return new

    def __copy__(self):
        return self.__deepcopy__({})


class Control:
    def __init__(self, i):
        self.i = i

    def get(self, obj):
        return obj.v[self.i]

    def set(self, obj, value):
        obj.v[self.i] = value


class Planned(Exception):
    pass


EXC = dict(CALL_EXC, OWN=Planned)


def random_stream(spec):
    """Put numpy's random stream into a state decided by the plan; optionally with extreme draws mixed in"""
    np.random.seed(spec["seed"] % 2 ** 32)
    real_default = np.random.default_rng
    np.random.default_rng = lambda seed=None: real_default(spec["seed"] if seed is None else seed)
    p = spec.get("extreme", 0.0)
    if p:
        from .core import Rng

        dice = Rng("extreme", spec["seed"])
        rnd, rint = np.random.random, np.random.randint

        def random(size=None):
            x = rnd(size)
            if size is None and dice.flip(p):
                return dice.choice([0.0, 1.0 - 2.0 ** -53, 2.0 ** -53])
            return x

        def randint(low, high=None, *a, **kw):
            x = rint(low, high, *a, **kw)
            if not a and not kw and dice.flip(p):
                lo, hi = (0, low) if high is None else (low, high)
                return dice.choice([lo, hi - 1])
            return x

        np.random.random, np.random.randint = random, randint


def gen_stream(rng):
    return {"seed": rng.randrange(2 ** 32), "extreme": rng.choice([0.0, 0.0, 0.0, 0.2, 0.9])}


def gen(rng, tier):
    N = rng.choice([4, 4, 5, 6, 8, 10, 17])
    nc = rng.choice([1, 1, 2, 3, 5])
    maxgen = rng.choice([0, 1, 1, 2, 3, 5, 8])
    plan = {"N": N, "start": [rng.choice([0.0, 1.0, rng.uni(-10, 10), rng.uni(-1e-3, 1e-3, 7), 1e6]) for _ in range(nc)],
            "maxgen": maxgen, "CR": rng.choice([0.0, 0.3, 0.5, 1.0]), "F": rng.choice([0.0, 0.5, 1.0, 1.3, 2.0]), "stream": gen_stream(rng)}
    n = N * (maxgen + 1)
    mode = rng.choice(["script", "script", "few", "func", "rising", "falling"])
    inf = rng.choice([0.0, 0.0, 0.3, 0.9])

    near = rng.flip(0.15)  # scores which differ by very little
    base = rng.choice([0.0, 1.0, -3.0, 1e6])

    def score():
        if rng.flip(inf):
            return rng.choice(["inf", "inf", "inf", 1e300, 1.7e308, 1e31])
        if near:
            return base + rng.randrange(9) * rng.choice([1e-10, 1e-13]) * max(1.0, abs(base))
        if mode == "few":
            return rng.choice([0.0, 1.0, 2.0, -1.0, "inf", "-inf"] if rng.flip(0.05) else [0.0, 1.0, 2.0])
        return rng.uni(-100, 100)

    if mode == "func":
        plan["target"] = [rng.uni(-5, 5) for _ in range(nc)]
        plan["hole"] = rng.choice([None, rng.uni(-1, 1)])
    else:
        s = [score() for _ in range(n)]
        if mode in ("rising", "falling"):
            s.sort(key=lambda x: 1e9 if x == "inf" else x, reverse=mode == "falling")
        if rng.flip(0.3) and n > 1:
            s[rng.choice([0, 1, N - 1, n - 1, rng.randrange(n)])] = -1000.0
        plan["scores"] = s
    plan["faults"] = []
    if rng.flip(0.3):
        for _ in range(rng.choice([1, 1, 2])):
            what = rng.choice(["measure", "monitor", "copy"])
            plan["faults"].append([what, rng.randrange(1, (maxgen if what == "monitor" else n) + 1) if maxgen else 1, rng.choice(sorted(EXC))])
    return plan


class Recorder:
    """Stub measure and monitor with an independent model of what the optimiser may report"""

    def __init__(self, plan, sim, fault=None):
        self.plan, self.sim = plan, sim
        self.evals = []  # (score, values)
        self.objs = []  # keep every object alive
        self.reports = 0
        self.previous = None
        self.fault = fault
        self.calls = {"measure": 0, "monitor": 0, "copy": 0}
        self.fired = False

    def maybe(self, what):
        self.calls[what] += 1
        f = self.fault
        if f and f[0] == what and self.calls[what] == f[1] and not self.fired:
            self.fired = True
            self.sim.fault("%s-%s" % (what, f[2]))
            raise EXC[f[2]]("planned")

    def score(self, obj):
        p = self.plan
        if "target" in p:
            x = sum((a - b) ** 2 for a, b in zip(obj.v, p["target"]))
            if p["hole"] is not None and abs(obj.v[0] - p["hole"]) < 0.5:
                return float("inf")
            return x
        s = p["scores"]
        k = len(self.evals)
        return float(s[k]) if k < len(s) else 0.0

    def measure(self, obj):
        self.maybe("measure")
        sc = self.score(obj)
        obj.tag = len(self.evals)
        self.evals.append((sc, list(obj.v)))
        self.objs.append(obj)
        self.sim.time += 1
        n = self.plan["N"] * (self.plan["maxgen"] + 1)
        self.sim.check(len(self.evals) <= n, "too-many-evaluations", "%d evaluations, allowed %d" % (len(self.evals), n))
        return sc

    def own(self, entry, kind):
        """entry = (score, object) with the score this object was given when it was evaluated"""
        sim = self.sim
        score, obj = entry
        sim.check(isinstance(obj, Obj) and obj.tag is not None, kind + "-unevaluated", "object was never evaluated")
        sc, v = self.evals[obj.tag]
        sim.check(v == obj.v, kind + "-changed-after-evaluation", lambda: "evaluated with controls %s, reported with %s" % (v, obj.v))
        sim.check(sc == score, kind + "-wrong-score", lambda: "reported score %r, evaluated to %r" % (score, sc))

    def lowest(self):
        return min(s for s, _ in self.evals)

    def monitor(self, generation, best, population):
        sim = self.sim
        self.maybe("monitor")
        sim.check(generation == self.reports, "report-number", "report %d calls itself generation %r" % (self.reports, generation))
        self.reports += 1
        self.own(best, "best")
        sim.check(best[0] == self.lowest(), "report-not-lowest",
                  lambda: "generation %d reports best %r, lowest of %d evaluations is %r" % (generation, best[0], len(self.evals), self.lowest()))
        population = list(population)
        sim.check(len(population) == self.plan["N"], "population-size", "%d members, should be %d" % (len(population), self.plan["N"]))
        for entry in population:
            self.own(entry, "member")
        sim.check(len({id(o) for _, o in population}) == len(population), "population-shared-object", "the same object is a member twice")
        sim.check(min(s for s, _ in population) == self.lowest(), "best-not-in-population",
                  lambda: "lowest score in population %r, lowest ever %r" % (min(s for s, _ in population), self.lowest()))
        scores = [s for s, _ in population]
        old = self.previous if self.previous is not None else [s for s, _ in self.evals[: self.plan["N"]]]
        for i, (a, b) in enumerate(zip(old, scores)):
            sim.check(b <= a, "member-got-worse", lambda: "member %d had score %r, now %r" % (i, a, b))
        improved = sum(1 for a, b in zip(old, scores) if b < a)
        self.previous = scores
        sim.event("generation", generation, best[0], improved)
        sim.state(self.plan["N"], len(self.plan["start"]), generation, improved)


def once(plan, sim, fault):
    from freegs import optimiser

    rec = Recorder(plan, sim, fault)
    start = Obj(plan["start"])
    controls = [Control(i) for i in range(len(plan["start"]))]
    Obj.hook = lambda: rec.maybe("copy")
    err = result = None
    try:
        result = optimiser.optimise(start, controls, rec.measure, maxgen=plan["maxgen"], N=plan["N"], CR=plan["CR"], F=plan["F"], monitor=rec.monitor)
    except BaseException as e:
        if type(e).__name__ == "Violation":
            raise
        err = e
    finally:
        Obj.hook = None
    sim.check(start.v == plan["start"], "start-modified", lambda: "controls of the starting object are %s, were %s" % (start.v, plan["start"]))
    if rec.fired:
        sim.check(type(err) is EXC[fault[2]], "failure-swallowed", "%s in %s call %d: optimise gave %r" % (fault[2], fault[0], fault[1], err))
        sim.state("fault", fault[0], fault[2])
        return
    if err is not None:
        raise err
    sim.check(isinstance(result, Obj) and result.tag is not None, "returned-unevaluated", "returned %r" % (result,))
    rec.own((rec.evals[result.tag][0], result), "returned")
    sim.check(rec.evals[result.tag][0] == rec.lowest(), "returned-not-lowest",
              lambda: "returned score %r (evaluation %d), lowest of %d is %r" % (rec.evals[result.tag][0], result.tag, len(rec.evals), rec.lowest()))
    sim.check(rec.reports == plan["maxgen"], "missing-reports", "%d reports for %d generations" % (rec.reports, plan["maxgen"]))
    sim.check(len(rec.evals) > plan["N"] - 1, "too-few-evaluations", "only %d evaluations" % len(rec.evals))
    sim.event("returned", result.tag, len(rec.evals))


def run(plan, sim):
    random_stream(plan["stream"])
    for fault in plan["faults"]:
        once(plan, sim, fault)
    once(plan, sim, None)
