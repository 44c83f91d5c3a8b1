"""P10: a failed solve step leaves the previous equilibrium in place"""
import numpy as np

from . import world as w
from .sched import CALL_EXC, LINE_EXC, LineTracer

RUNS = {"quick": 260, "thorough": 6000}
SHRINK = ["ops"]
RULE = "A plan is an equilibrium and a history of linear and nonlinear solves; each is first attempted with failures (an error or interrupt before or " \
       "after the profiles, boundary condition or linear solver did their work, or an interrupt at a seeded line) and then repeated cleanly. A twin which " \
       "never fails runs the same history."
STATE_MEASURE = "distinct (operation, place or function of the failure, exception, completed steps) signatures"
TIME_UNIT = "traced lines and solver calls"
REAL = ["freegs (solver, profiles, machine, boundary conditions)"]
STUB = ["wrappers of the real boundary condition, linear solver, profiles and coil control which fail at the planned point"]
ASSUMPTIONS = ["interrupts which arrive while the result of a step is being stored are not injected", "the failed step was given a profile object of its own"]

EXC = CALL_EXC
PLACES = ["profiles", "boundary", "solver"]


def gen(rng, tier):
    plan = w.gen_solved(rng, limited=rng.flip(0.25), allow33=False)
    if rng.flip(0.7):
        plan["grid"].update(nx=17, ny=17)
    if rng.flip(0.25):
        plan["grid"]["boundary"] = "freeBoundaryHagenow"
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice(["linear", "linear", "psi", "given", "control", "picard", "picard"])
        spec = dict(plan["profiles"])
        if "Ip" in spec:
            spec["Ip"] = float(round(spec["Ip"] * rng.uniform(0.93, 1.07)))
            if "paxis" in spec:
                spec["paxis"] = round(spec["paxis"] * rng.uniform(0.8, 1.2), 1)
        else:
            spec["p0"] = round(spec["p0"] * rng.uniform(0.95, 1.05), 1)
        faults = []
        for _ in range(rng.choice([1, 1, 2])):
            if rng.flip(0.5):
                faults.append(["line", rng.uni(0, 1, 6), rng.choice(sorted(LINE_EXC))])
            else:
                n = rng.choice([1, 1, 2, 3]) if k == "picard" else 1
                place = rng.choice(PLACES + (["constrain"] if k in ("control", "picard") else []))
                faults.append([place, rng.choice(["before", "after"]), rng.choice(sorted(EXC)), n])
        if k == "given":
            faults = [f for f in faults if f[0] != "profiles"]
        arg = {"psi": rng.uni(-0.01, 0.01), "given": [rng.uni(0.9, 1.1), rng.uni(-0.1, 0.1), rng.uni(0.2, 0.4), rng.uni(1e5, 5e5, 0)]}.get(k)
        ops.append([k, spec, faults, arg, rng.uni(-0.02, 0.02)])
    plan["ops"] = ops
    return plan


class Step:
    """One operation on one equilibrium, with hooks around its parts"""

    def __init__(self, W, op, sim, fault=None):
        self.W, self.op, self.sim, self.fault = W, op, sim, fault
        self.counts = {}
        self.planned = None
        self.tracer = None
        self.done = []  # completed linear steps: (plasma flux, current density)
        self.J = None
        self.inside = False

    def hit(self, place, when, *work):
        if place == "boundary":
            self.inside = when == "before"  # von Hagenow's condition calls the linear solver itself
        if self.tracer is not None and place != "solver":
            self.tracer.active = True
        if self.tracer is not None and (place, when) == ("solver", "after") and not self.inside:
            self.tracer.active = False  # the result is about to be stored
        key = place, when
        self.counts[key] = self.counts.get(key, 0) + 1
        f = self.fault
        if f and f[0] == place and f[1] == when and self.counts[key] == f[3] and self.planned is None:
            for x in work:
                x[1:, :3] = -7.0  # half-finished work
            self.planned = EXC[f[2]]("planned")
            self.sim.fault("%s-%s-%s" % (place, when, f[2]))
            raise self.planned

    def run(self):
        import freegs

        W, (k, spec, _, arg, _) = self.W, self.op
        eq = W.eq
        real = w.build_profiles(spec, eq)
        step = self

        class P:
            def Jtor(self, R, Z, psi, psi_bndry=None):
                step.hit("profiles", "before")
                J = real.Jtor(R, Z, psi, psi_bndry=psi_bndry)
                step.J = np.array(J)
                step.hit("profiles", "after")
                return J

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                return getattr(real, name)

        def constrain(e):
            step.hit("constrain", "before")
            W.constrain(e)
            step.hit("constrain", "after")

        W.seam.hook = {("boundary", "before"): lambda p: step.hit("boundary", "before", p), ("boundary", "after"): lambda p: step.hit("boundary", "after", p),
                       ("solver", "before"): lambda p: step.hit("solver", "before", p), ("solver", "after"): self.stored}
        prof = P()
        try:
            with w.quiet(), np.errstate(all="ignore"):
                if k == "linear":
                    eq.solve(prof)
                elif k == "control":
                    constrain(eq)
                    eq.solve(prof)
                elif k == "psi":
                    psi = eq.psi() * (1 + arg)
                    keep = psi.copy()
                    try:
                        eq.solve(prof, psi=psi)
                    finally:
                        step.sim.check(np.array_equal(psi, keep), "argument-modified", "the given flux was modified")
                elif k == "given":
                    J = arg[3] * np.exp(-((eq.R - arg[0]) ** 2 + (eq.Z - arg[1]) ** 2) / arg[2] ** 2)
                    self.J = J.copy()
                    real.Jtor(eq.R, eq.Z, eq.psi())  # gives the profiles a scale
                    try:
                        eq.solve(real, Jtor=J)
                    finally:
                        step.sim.check(np.array_equal(J, self.J), "argument-modified", "the given current density was modified")
                else:
                    freegs.solve(eq, prof, constrain, rtol=3e-3, maxits=40, check_limited=bool(W.limited))
        finally:
            W.seam.hook = {}

    def stored(self, out):
        self.hit("solver", "after", out)
        if not self.inside:
            self.done.append((np.array(out), self.J))


def plasma(eq, functions=True):
    """The plasma's part of an equilibrium"""
    rs = np.array([0.5, 0.7, 1.0, 1.3, 1.55])
    zs = np.array([0.1, -0.4, 0.05, 0.3, 0.5])
    o = {"plasma_psi": w.arr(eq.plasma_psi), "plasmaBr": w.arr(eq.plasmaBr(rs, zs)), "plasmaBz": w.arr(eq.plasmaBz(rs, zs)),
         "flux": w.arr(eq.psiRZ(rs, zs) - eq.tokamak.psi(rs, zs)), "current": float(eq.plasmaCurrent()), "Jtor": w.arr(eq.Jtor)}
    if functions:
        x = np.array([0.1, 0.5, 0.9])
        o.update(pprime=w.arr([eq.pprime(v) for v in x]), ffprime=w.arr([eq.ffprime(v) for v in x]), fvac=float(eq.fvac()), pressure=w.arr(eq.pressure(x)), fpol=w.arr(eq.fpol(x)))
    return o


def run(plan, sim):
    A = w.solved(plan, sim, seam=True)
    B = w.solved(plan, sim, seam=True)
    A.limited = B.limited = bool(A.eq.check_limited)
    compare(sim, A, B, "twins-differ")
    for op in plan["ops"]:
        k, _, faults, _, dI = op
        sim.event("op", k)
        for X in (A, B):
            for _, c in X.tok.coils:
                if c.control:
                    c.current = c.current * (1 + dI)
            X.start = [c.current for _, c in X.tok.coils]
        # The twin which never fails goes first; its lines are counted
        ref = Step(B, op, sim)
        try:
            with LineTracer() as t:
                ref.tracer = t
                ref.run()
        except (RuntimeError, ValueError, AssertionError, np.linalg.LinAlgError) as e:
            if k != "picard":
                sim.skip("undisturbed %s step: %s" % (k, type(e).__name__))
            sim.skip("undisturbed solve does not converge")
        repeatable = True
        for f in faults:
            before, machine = plasma(A.eq), w.machine_state(A.tok)
            err = None
            if f[0] == "line":
                step = Step(A, op, sim)
                exc = EXC[f[2]]
                with LineTracer(1 + int(f[1] * t.n), exc, sim) as tr:
                    step.tracer = tr
                    try:
                        step.run()
                    except BaseException as e:
                        err = e
                fired = tr.fired
                where = tr.where
                ok = isinstance(err, exc)
            else:
                step = Step(A, op, sim, f)
                try:
                    step.run()
                except BaseException as e:
                    err = e
                fired = step.planned is not None
                where = f[:2]
                ok = err is step.planned
            if type(err).__name__ == "Violation":
                raise err
            if not fired:
                # The failing call was never reached: a complete solve
                if err is not None:
                    raise err
                sim.probe("not-reached")
                repeatable = False
                break
            sim.time += len(step.done)
            sim.check(ok, "failure-swallowed", lambda: "%s at %s: solve gave %r" % (f[2], where, err))
            now = plasma(A.eq, functions=not step.done)
            if not step.done:
                d = w.difference(before, now, 1e-10)
                sim.check(d is None, "not-previous-equilibrium", lambda: "%s at %s in %s: %s" % (f[2], where, k, d))
                if k in ("linear", "psi", "given"):
                    d = w.difference(machine, w.machine_state(A.tok))
                    sim.check(d is None, "coils-changed", lambda: "%s at %s in %s: %s" % (f[2], where, k, d))
            else:
                # A nonlinear solve: the last completed step
                psi, J = step.done[-1]
                sim.check(w.same_array(now["plasma_psi"], psi) and w.same_array(now["Jtor"], J), "not-last-completed-step", lambda: "%s at %s: flux or current density" % (f[2], where))
                d = abs(now["current"] - integral(J, A.eq))
                sim.check(d <= 1e-9 * abs(now["current"]), "not-last-completed-step", lambda: "plasma current %g, integral %g" % (now["current"], integral(J, A.eq)))
                repeatable = False
            sim.state(k, str(where), f[2], len(step.done))
            for (_, c), i in zip(A.tok.coils, A.start):
                c.current = i
        if not repeatable:
            # Nothing to compare any more: continue from the twin's state
            sim.probe("not-repeated")
            return
        again = Step(A, op, sim)
        again.run()
        compare(sim, A, B, "repeat-differs")
        sim.probe("repeated")
        sim.event("repeated", w.digest(plasma(A.eq)))


def integral(J, eq):
    from scipy.integrate import romb

    return romb(romb(J)) * (eq.R[1, 0] - eq.R[0, 0]) * (eq.Z[0, 1] - eq.Z[0, 0])


def compare(sim, A, B, kind):
    a, b = w.observe(A.eq, deep=True), w.observe(B.eq, deep=True)
    a["plasma"], b["plasma"] = plasma(A.eq), plasma(B.eq)
    d = w.difference(a, b, 1e-11)
    sim.check(d is None, kind, lambda: "compared with the twin which never failed: %s" % d)
