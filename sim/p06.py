"""P06: optimising equilibria is isolated from its starting point and from failures"""
import numpy as np

from . import p05
from . import world as w
from .sched import Own, OwnBase

RUNS = {"quick": 120, "thorough": 3000}
SHRINK = ["faults", "controls"]
RULE = "A plan is a solved equilibrium, position controls with limits, a measure, a random stream, and failures: a solve, a measure or a control " \
       "fails for seeded candidates, and an optimisation is stopped by an interrupt or a monitor error at a seeded call and then repeated."
STATE_MEASURE = "distinct (population, generation, failed candidates, stop point) signatures"
TIME_UNIT = "evaluations"
REAL = ["freegs.optimise, freegs.optimiser, solver, coil control, machine"]
STUB = ["random stream (seeded)", "monitor, and failing wrappers around the real profiles, measures and controls"]
ASSUMPTIONS = ["the starting positions lie within the limits", "scores are ordered (no NaN)"]


class Shared:
    """Not copied with the equilibrium"""

    def __deepcopy__(self, memo):
        return self

    __copy__ = None


class Fault(Shared):
    def __init__(self, sim):
        self.sim = sim
        self.arm = {}  # (place, candidate) -> exception
        self.candidate = -1
        self.fired = []

    def hit(self, place):
        e = self.arm.get((place, self.candidate))
        if e is not None and (place, self.candidate) not in self.fired:
            self.fired.append((place, self.candidate))
            self.sim.fault("%s-%s" % (place, e.__name__))
            raise e("planned")


class Profiles:
    """Real profiles, which can fail during the solve of a candidate"""

    def __init__(self, real, fault):
        self.real, self.fault = real, fault

    def Jtor(self, R, Z, psi, psi_bndry=None):
        f = self.fault
        if f.last is not self:
            # Copied with its equilibrium: this is the solve of the next candidate
            f.last = self
            f.candidate += 1
        f.hit("solve")
        J = self.real.Jtor(R, Z, psi, psi_bndry=psi_bndry)
        f.J, f.psi = np.array(J), np.array(psi)
        return J

    def __getattr__(self, name):
        if name in ("real", "fault") or name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real, name)


ERRORS = {"Value": ValueError, "Runtime": RuntimeError, "Memory": MemoryError, "Zero": ZeroDivisionError, "Index": IndexError, "Assert": AssertionError,
          "Lin": np.linalg.LinAlgError, "Key": KeyError, "Type": TypeError, "Attr": AttributeError, "OS": OSError, "Stop": StopIteration, "Float": FloatingPointError, "Own": Own}
STOPS = {"INT": KeyboardInterrupt, "EXIT": SystemExit, "OWB": OwnBase}


def gen(rng, tier):
    plan = w.gen_solved(rng, limited=False, circuits=False, solenoid=False, extra=False, allow33=False, profiles=("paxis", "paxis", "betap"))
    plan["grid"].update(nx=17, ny=17)
    names = [c[0] for c in plan["machine"]["coils"]]
    controls = []
    for name in rng.sample(names, rng.choice([1, 2, 3])):
        lim = rng.choice(["none", "tight", "tight", "low", "high", "zero"])
        controls.append([rng.choice("RZ"), name, lim])
    plan["controls"] = controls
    plan["N"] = rng.choice([4, 4, 5])
    plan["maxgen"] = rng.choice([0, 1, 1, 2])
    plan["CR"], plan["F"] = rng.choice([0.0, 0.3, 1.0]), rng.choice([0.5, 1.0, 1.0, 2.0])
    plan["stream"] = p05.gen_stream(rng)
    plan["measure"] = rng.choice(["script", "maxcurrent", "wall", "wmax"])
    n = plan["N"] * (plan["maxgen"] + 1)
    plan["scores"] = [rng.choice([rng.uni(-10, 10), rng.uni(-10, 10), "inf"] if rng.flip(0.5) else [rng.uni(-10, 10)]) for _ in range(n)]
    faults = []
    dense = rng.choice([0.0, 0.2, 0.2, 0.6])
    for k in range(n):
        if rng.flip(dense):
            faults.append([rng.choice(["solve", "measure"]), k, rng.choice(sorted(ERRORS))])
    plan["faults"] = faults
    plan["stop"] = None
    if rng.flip(0.6):
        place = rng.choice(["solve", "measure", "monitor", "control"])
        plan["stop"] = [place, rng.randrange(n if place != "monitor" else max(plan["maxgen"], 1)),
                        rng.choice(["INT", "INT", "EXIT", "OWB"] + (sorted(ERRORS) if place == "monitor" else []))]
    return plan


def limits(kind, coil, lim):
    x = coil.R if kind == "R" else coil.Z
    if lim == "none":
        return None, None
    if lim == "tight":
        return x - 0.02, x + 0.015
    if lim == "low":
        return x, None
    if lim == "high":
        return None, x
    # A limit at exactly zero
    if kind == "R":
        return 0.0, x + 0.01
    return (0.0, None) if x > 0 else (None, 0.0)


def positions(eq, plan):
    return [[label, w.coil_state(c)[3:]] for label, c in eq.tokamak.coils]


def run(plan, sim):
    import freegs
    from freegs import control, optimise

    W = w.solved(plan, sim, rtol=1e-3)
    eq0 = W.eq
    lim = {}
    controls = []
    fault = Fault(sim)
    fault.last = fault.J = None
    for kind, name, lm in plan["controls"]:
        lo, hi = limits(kind, W.tok[name], lm)
        if (kind, name) in lim:
            continue
        lim[kind, name] = (lo, hi)
        base = (optimise.CoilRadius if kind == "R" else optimise.CoilHeight)
        kw = {}
        if lo is not None or lm == "none":
            kw["minimum"] = lo
        if hi is not None:
            kw["maximum"] = hi
        if lm == "none" and kind == "R":
            kw.pop("minimum")  # documented default: not below zero
        controls.append(base(name, **kw))
        if lm == "none" and kind == "R":
            lim[kind, name] = (0.0, None)

    # Failures are injected through the profiles and measure the user supplies
    prof = Profiles(W.profiles, fault)
    with w.quiet():
        try:
            freegs.solve(eq0, prof, W.constrain)
        except (RuntimeError, ValueError, AssertionError) as e:
            sim.skip("set-up did not converge: " + type(e).__name__)
    start_pos = positions(eq0, plan)
    start_values = [c.get(eq0) for c in controls]

    def attempt(stop, faults):
        """One optimisation. Every candidate is observed through measure and the solve's profiles"""
        fault.candidate, fault.last, fault.J, fault.fired = -1, None, None, []
        fault.arm = {(place, k): ERRORS[e] for place, k, e in faults}
        if stop and stop[0] in ("solve", "measure"):
            fault.arm[stop[0], stop[1]] = STOPS[stop[2]]
        record = {}  # tag -> (score, positions)
        state = {"reports": 0, "sets": 0, "lowest": np.inf, "ok": 0, "calls": 0}

        def within(eq, where):
            for (kind, name), (lo, hi) in sorted(lim.items()):
                x = getattr(eq.tokamak[name], kind)
                sim.check((lo is None or x >= lo) and (hi is None or x <= hi), "limit-exceeded",
                          lambda: "%s: %s of %s is %r, limits %r to %r" % (where, kind, name, x, lo, hi))

        def measure(eq):
            state["calls"] += 1
            k = fault.candidate
            sim.check(fault.J is not None and w.same_array(fault.J, eq.Jtor), "measured-unsolved", "candidate %d was measured without being solved" % k)
            change = np.max(np.abs(fault.psi - eq.psi())) / np.ptp(fault.psi)
            sim.check(change < 1e-2, "candidate-not-converged", lambda: "last step of candidate %d changed the flux by %g" % (k, change))
            fault.J = None
            sim.time += 1
            within(eq, "candidate %d" % k)
            solved_here(eq, k)
            fault.hit("measure")
            if plan["measure"] == "script":
                score = float(plan["scores"][k]) if k < len(plan["scores"]) else 0.0
            elif plan["measure"] == "maxcurrent":
                score = optimise.max_abs_coil_current(eq)
                ref = max(abs(c.current) for _, c in eq.tokamak.coils)
                sim.check(abs(score - ref) <= 1e-9 * abs(ref), "measure-value", "maximum current %g, should be %g" % (score, ref))
            elif plan["measure"] == "wall":
                score = optimise.weighted_sum(optimise.max_abs_coil_current, (optimise.no_wall_intersection, 1e3))(eq) if eq.tokamak.wall is not None else float(k)
            else:
                a, b = max(abs(c.current) for _, c in eq.tokamak.coils), eq.tokamak[plan["controls"][0][1]].R
                score = optimise.weighted_sum((optimise.max_abs_coil_current, 0.25), lambda e: e.tokamak[plan["controls"][0][1]].R)(eq)
                sim.check(abs(score - 0.25 * a - b) <= 1e-9 * abs(score), "measure-value", "weighted sum %g, should be %g" % (score, 0.25 * a + b))
            eq.verif_tag = k
            record[k] = (score, positions(eq, plan))
            if score < np.inf:
                state["ok"] += 1
            state["lowest"] = min(state["lowest"], score)
            return score

        def solved_here(eq, k):
            """The candidate is an equilibrium for its own coil positions"""
            coils = eq.tokamak.psi(eq.R, eq.Z)
            sim.check(w.same_array(eq.psi(), eq.plasma_psi + coils, 1e-9), "stale-coil-flux", "flux of candidate %d is not that of its coils" % k)
            sim.check(abs(eq.plasmaCurrent() - plan["profiles"]["Ip"]) < 1e-6 * abs(plan["profiles"]["Ip"]), "candidate-not-solved", "plasma current")

        def known(eq, score, what):
            tag = getattr(eq, "verif_tag", None)
            good = tag in record and record[tag][1] == positions(eq, plan) and record[tag][0] == score
            return good

        def monitor(generation, best, population):
            if stop and stop[0] == "monitor" and stop[1] == generation:
                e = dict(ERRORS, **STOPS)[stop[2]]
                fault.fired.append(("monitor", generation))
                sim.fault("monitor-" + e.__name__)
                raise e("planned")
            sim.check(len(population) == plan["N"], "population-size", "%d members" % len(population))
            if state["ok"]:
                sim.check(known(best[1], best[0], "best"), "failed-candidate-reported", "best of generation %d did not evaluate to %r" % (generation, best[0]))
                sim.check(best[0] == state["lowest"], "report-not-lowest", "best %r, lowest %r" % (best[0], state["lowest"]))
            for score, eq in population:
                within(eq, "population")
                if score < np.inf:
                    sim.check(known(eq, score, "member"), "failed-candidate-kept", "member with score %r did not evaluate to it" % score)
            state["reports"] += 1
            sim.event("generation", generation, "%.6g" % best[0], sorted("%.6g" % s for s, _ in population))
            sim.state(plan["N"], generation, len(fault.fired), sum(1 for s, _ in population if s == np.inf))

        used = controls
        if stop and stop[0] == "control":
            used = [Stopping(c, stop, state, fault, sim) for c in controls]
        err = result = None
        try:
            with w.quiet(), np.errstate(all="ignore"):
                result = optimise.optimise(eq0, used, measure, maxgen=plan["maxgen"], N=plan["N"], CR=plan["CR"], F=plan["F"], monitor=monitor)
        except BaseException as e:
            err = e
            if type(e).__name__ == "Violation":
                raise
        d = w.difference(start_pos, positions(eq0, plan))
        sim.check(d is None, "start-moved", lambda: "coil of the starting equilibrium: %s" % d)
        fired_stop = [f for f in fault.fired if stop and f[0] == stop[0] and (stop[0] in ("control", "monitor") or f[1] == stop[1])]
        if fired_stop:
            want = dict(ERRORS, **STOPS)[stop[2]]
            sim.check(type(err) is want, "stop-swallowed", lambda: "%s in %s %d: optimise gave %r" % (stop[2], stop[0], stop[1], err))
            sim.event("stopped", stop[0], stop[1])
            sim.state("stop", *stop)
            return
        if err is not None:
            raise err
        sim.check(state["reports"] == plan["maxgen"], "missing-reports", "%d reports" % state["reports"])
        within(result, "returned")
        if state["ok"]:
            tag = getattr(result, "verif_tag", None)
            sim.check(tag in record and record[tag][1] == positions(result, plan), "failed-candidate-returned",
                      lambda: "returned equilibrium was not successfully evaluated (%d others were)" % state["ok"])
            sim.check(record[tag][0] == state["lowest"], "returned-not-lowest", lambda: "returned score %r, lowest %r" % (record[tag][0], state["lowest"]))
            solved_here(result, tag)
            sim.probe("returned-evaluated")
        else:
            sim.probe("all-failed")
        sim.event("returned", [round(c.get(result), 9) for c in controls], state["calls"])

    p05.random_stream(plan["stream"])
    if plan["stop"]:
        attempt(plan["stop"], plan["faults"])
        eq0.verif_tag = None
    attempt(None, plan["faults"])
    sim.check([c.get(eq0) for c in controls] == start_values, "start-moved", "controls of the starting equilibrium changed")


class Stopping(object):
    """A position control during whose n-th use the user interrupts"""

    def __init__(self, real, stop, state, fault, sim):
        self.real, self.stop, self.state, self.fault, self.sim = real, stop, state, fault, sim

    def get(self, eq):
        return self.real.get(eq)

    def set(self, eq, value):
        self.state["sets"] += 1
        if self.state["sets"] == self.stop[1] + 1:
            self.fault.fired.append(("control", self.stop[1]))
            self.sim.fault("control-" + self.stop[2])
            raise STOPS[self.stop[2]]("planned")
        return self.real.set(eq, value)
