"""P11: coil control meets targets, respects limits and touches only controlled coils"""
import numpy as np

from . import machines as mc
from . import world as w
from .sched import CALL_EXC, LineTracer

RUNS = {"quick": 4000, "thorough": 120000}
SHRINK = ["ops"]
RULE = "A plan is a machine of mixed coils (any order, some not under control), a plasma, and a history of current changes, coil moves, control switches, solve steps and " \
       "control calls (points or flux maps as targets, with or without limits), each possibly attempted first with failing field queries, failing fits or interrupts."
STATE_MEASURE = "distinct (control kind, limits, numbers of coils, controls and targets, fault) signatures"
TIME_UNIT = "control calls and field queries"
REAL = ["freegs (control, machine, equilibrium)", "scipy.optimize"]
STUB = ["wrappers of the field queries of the equilibrium and of scipy's fits, which fail at the planned call"]
ASSUMPTIONS = ["limits can be met together", "interrupts arrive while a field is being evaluated, not while the result is stored",
               "targets are checked when the reference response of the controlled coils to them is well conditioned"]

EXC = {k: v for k, v in CALL_EXC.items() if k != "STP"}  # scipy takes StopIteration as a request to stop the fit
QUERIES = ["psi", "psiRZ", "Br", "Bz"]


def gen(rng, tier):
    n = rng.choice([1, 2, 4, 5, 6, 7, 8])
    coils = []
    for i in range(n):
        ang = rng.uni(0, 2 * np.pi)
        # Around the domain, apart from each other
        for _ in range(50):
            r, z = round(1.35 + 1.05 * np.cos(ang), 4), round(1.6 * np.sin(ang), 4)
            if r > 0.25 and all(abs(r - a) + abs(z - b) > 0.35 for a, b in [(c[2], c[3]) for c in coils]):
                break
            ang = rng.uni(0, 2 * np.pi)
        else:
            continue
        k = rng.choice(["one", "one", "one", "circuit", "mirror", "sol"])
        if k == "one":
            c = w.gen_coil(rng, r, z, ("coil", "shaped", "fil", "multi"))
        elif k == "mirror":
            c = {"k": "mirror", "R": r, "Z": abs(z) + 0.2, "turns": rng.choice([1, 4]), "symmetric": rng.flip()}
        elif k == "sol":
            c = {"k": "sol", "Rs": 0.05 + 0.01 * i, "Zmin": rng.uni(-1.0, -0.5), "Zmax": rng.uni(0.5, 1.0), "Ns": rng.choice([3, 10])}
        else:
            c = {"k": "circuit", "coils": [["a", w.gen_coil(rng, r, z), rng.choice([1.0, -2.0, 0.5])],
                                           ["b", w.gen_coil(rng, r, -z if abs(z) > 0.2 else 0.5), rng.choice([1.0, -1.0, 0.0])]]}
        c["I"] = rng.choice([0.0, rng.uni(-3e4, 3e4, 1)])
        c["control"] = rng.flip(0.7)
        coils.append(["c%d" % rng.randrange(1000), c, r, z])
    plan = {"machine": {"coils": [["%s_%d" % (c[0], i), c[1]] for i, c in enumerate(coils)]}, "grid": w.gen_grid(rng, allow33=False),
            "plasma": [rng.uni(0.7, 1.4), rng.uni(-0.4, 0.4), rng.uni(0.2, 0.5), rng.choice([0.0, rng.uni(-0.3, 0.3)])]}
    plan["grid"].update(nx=17, ny=17)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.choice(["con", "con", "con", "con", "map", "map", "current", "switch", "solve", "move", "again", "again"])
        if k == "current":
            ops.append([k, rng.uni(0, 1), rng.uni(-3e4, 3e4, 1)])
        elif k == "switch":
            ops.append([k, rng.uni(0, 1)])
        elif k == "move":
            ops.append([k, rng.uni(0, 1), rng.uni(0, 1), rng.choice("RZ"), rng.uni(-0.1, 0.1)])
        elif k == "again":
            ops.append([k])
        elif k == "solve":
            ops.append([k, rng.uni(1e4, 3e5, 0)])
        else:
            fault = None
            if rng.flip(0.45):
                fault = [rng.choice(["query", "query", "line", "fit"]), rng.choice([1, 1, 2, 3, 5, 8, 13, 21, 40]), rng.choice(sorted(EXC)), rng.uni(0, 1)]
            if k == "con":
                pt = lambda: [rng.uni(0.6, 1.6), rng.uni(-0.8, 0.8)]
                spec = {"xpoints": [pt() for _ in range(rng.choice([0, 1, 1, 2]))], "isoflux": [pt() + pt() for _ in range(rng.choice([0, 0, 1, 2]))],
                        "psivals": [pt() + [rng.uni(-0.2, 0.2)] for _ in range(rng.choice([0, 0, 1, 2]))], "gamma": rng.choice([1e-12, 1e-12, 1e-11, 1e-9])}
                if not (spec["xpoints"] or spec["isoflux"] or spec["psivals"]):
                    spec["psivals"] = [pt() + [0.1]]
                lim = rng.choice([1e2, 1e3, 1e4, 1e5, 1e6])
                if rng.flip(0.45):
                    spec["lims"] = [[round(-lim * rng.uni(0, 1), 2), round(lim * rng.uni(0.1, 1), 2)] for _ in coils]
                if rng.flip(0.25):
                    spec["maxtot"] = round(lim * rng.choice([0.5, 2, 5]), 2)
                ops.append([k, spec, fault])
                if rng.flip(0.25):
                    # Coils are moved, their currents or switches changed, and the same control system applied again
                    for _ in range(rng.choice([1, 2, 4])):
                        ops.append(rng.choice([["move", rng.uni(0, 1), rng.uni(0, 1), rng.choice("RZ"), rng.choice([-1, 1]) * rng.uni(0.05, 0.15)], ["current", rng.uni(0, 1), rng.uni(-3e4, 3e4, 1)]]))
                    ops.append(["again"])
            else:
                kind = rng.choice(["psi", "psi", "norm", "psiA", "normA"])
                lim = rng.choice([1e3, 1e4, 1e5])
                lims = [[round(-lim * rng.uni(0.1, 1), 2), round(lim * rng.uni(0.1, 1), 2)] for _ in coils] if kind.endswith("A") and rng.flip() else None
                ops.append([k, [kind, [rng.uni(-2e4, 2e4, 1) for _ in coils], rng.uni(-0.5, 0.5), rng.choice([None, "box"]), lims], fault])
    plan["ops"] = ops
    return plan


class Failing:
    """Counts the queries of an equilibrium, fails at the n-th"""

    def __init__(self, eq, fault, sim):
        self.eq, self.fault, self.sim = eq, fault, sim
        self.n = 0
        self.fired = None
        self.tracer = None
        for name in QUERIES:
            setattr(eq, name, self.wrap(getattr(eq, name)))

    def wrap(self, f):
        def g(*a, **k):
            self.n += 1
            hit = self.fault is not None and self.n == self.fault[1] and self.fired is None
            if hit and self.fault[0] == "query":
                self.fired = EXC[self.fault[2]]("planned")
                self.sim.fault("query-" + self.fault[2])
                raise self.fired
            if hit and self.fault[0] == "line":
                with LineTracer(1 + int(self.fault[3] * 25), KeyboardInterrupt, self.sim) as t:
                    try:
                        return f(*a, **k)
                    finally:
                        if t.fired:
                            self.fired = KeyboardInterrupt
            return f(*a, **k)

        return g

    def remove(self):
        for name in QUERIES:
            delattr(self.eq, name)


class Fit:
    """scipy's fits fail after some evaluations"""

    def __init__(self, fault, sim):
        self.fault, self.sim = fault, sim
        self.fired = None

    def __enter__(self):
        from scipy import optimize

        self.opt = optimize
        self.old = optimize.leastsq, optimize.minimize
        if self.fault is not None and self.fault[0] == "fit":
            optimize.leastsq = lambda f, x0, args=(), **k: self.fail(f, x0, args)
            optimize.minimize = lambda f, x0, args=(), **k: self.fail(f, x0, args)

    def fail(self, f, x0, args):
        for i in range(self.fault[1]):
            f(np.array(x0) * (1 + 0.1 * i) + 10.0 * i, *args)
        self.fired = EXC[self.fault[2]]("planned")
        self.sim.fault("fit-" + self.fault[2])
        raise self.fired

    def __exit__(self, *a):
        self.opt.leastsq, self.opt.minimize = self.old


def box(eq):
    return np.where((eq.R > 0.5) & (eq.R < 1.7) & (abs(eq.Z) < 0.8), 1.0, 0.0)


def controlled(tok):
    return [c for _, c in tok.coils if c.control]


def reference(plan, tok):
    ref = plan["model"]
    for (label, c), (_, s) in zip(tok.coils, ref.src):
        s.I = c.current
    return ref


def target_matrix(plan, tok, spec):
    """Response of the targets to one ampere in each controlled coil, by the reference model"""
    cols = []
    for (label, c), (_, s) in zip(tok.coils, plan["model"].src):
        if not c.control:
            continue
        s.I = 1.0
        f = lambda what, r, z: s.field(what, np.array(r), np.array(z))[0]
        col = []
        for r, z in spec["xpoints"]:
            col += [f("Br", r, z), f("Bz", r, z)]
        col += [f("psi", a, b) - f("psi", x, y) for a, b, x, y in spec["isoflux"]]
        col += [f("psi", r, z) for r, z, _ in spec["psivals"]]
        cols.append(col)
    return np.array(cols, dtype=float).T


def residual(eq, ref, spec):
    """Deviation of the targets: plasma from the equilibrium, coils from the reference model; and scale of the parts"""
    out, mag = [], []

    def total(what, r, z):
        t, g = ref.field(what, np.array(r), np.array(z))
        p = {"psi": lambda: eq.psiRZ(r, z) - eq.tokamak.psi(r, z), "Br": lambda: eq.plasmaBr(r, z), "Bz": lambda: eq.plasmaBz(r, z)}[what]()
        p = float(np.squeeze(p))
        return float(t) + p, float(g) + abs(p)

    for r, z in spec["xpoints"]:
        for what in ("Br", "Bz"):
            t, g = total(what, r, z)
            out.append(t), mag.append(g)
    for a, b, x, y in spec["isoflux"]:
        (t1, g1), (t2, g2) = total("psi", a, b), total("psi", x, y)
        out.append(t1 - t2), mag.append(g1 + g2)
    for r, z, v in spec["psivals"]:
        t, g = total("psi", r, z)
        out.append(t - v), mag.append(g + abs(v))
    return np.array(out), np.array(mag)


def own_residual(eq, spec):
    """The same as reported by the equilibrium itself"""
    out = []
    one = lambda x: float(np.squeeze(x))
    for r, z in spec["xpoints"]:
        out += [one(eq.Br(r, z)), one(eq.Bz(r, z))]
    for a, b, x, y in spec["isoflux"]:
        out.append(one(eq.psiRZ(a, b)) - one(eq.psiRZ(x, y)))
    for r, z, v in spec["psivals"]:
        out.append(one(eq.psiRZ(r, z)) - v)
    return np.array(out)


def run(plan, sim):
    import freegs
    from freegs import control, jtor

    P = mc.Pair(plan["machine"], sim)
    tok = P.real
    plan = dict(plan, model=P.ref)
    eq = w.build_eq(plan["grid"], tok)
    r0, z0, wid, amp = plan["plasma"]
    eq = w.build_eq(plan["grid"], tok, psi=amp * np.exp(-((eq.R - r0) ** 2 + (eq.Z - z0) ** 2) / wid ** 2))
    used = None  # the last control system of points, which may be applied again
    for op in plan["ops"]:
        k = op[0]
        sim.event("op", k)
        sim.time += 1
        if k == "move":
            if P.apply([op[3], op[1], op[2], op[4]]):
                eq = w.build_eq(plan["grid"], tok, psi=eq.plasma_psi)  # the flux of the coils belongs to their places
            continue
        if k == "again":
            if used is None:
                continue
            spec, con, fault = used[0], used[1], None
            k = "con"
            sim.probe("control-reused")
        else:
            con = None
        if k == "current" or k == "switch":
            c = tok.coils[min(int(op[1] * len(tok.coils)), len(tok.coils) - 1)][1]
            if k == "current":
                c.current = op[2]
            else:
                c.control = not c.control
            continue
        if k == "solve":
            J = op[1] * np.exp(-((eq.R - 1.0) ** 2 + eq.Z ** 2) / 0.3 ** 2)
            prof = jtor.ProfilesPprimeFfprime(lambda x: 0.0, lambda x: 0.0, 1.0)
            eq.solve(prof, Jtor=J)
            continue
        if con is None:
            _, spec, fault = op
        if k == "con":
            con = con or w.build_constrain(spec)
            used = (spec, con)
        else:
            kind, currents, offset, wt, lims = spec
            if lims is not None and not all(c.control for _, c in tok.coils):
                spec = spec[:4] + [None]  # limits by coil and by controlled coil agree only then
                lims = None
            con, misfit, possible = map_control(eq, plan, spec, control)
            if con is None:
                sim.probe("no-target-map")
                continue
        before = w.machine_state(tok)
        flags = [c.control for _, c in tok.coils]
        flux = eq.plasma_psi.copy()

        def attempt(fault):
            f = Failing(eq, fault, sim)
            fit = Fit(fault, sim)
            err = None
            try:
                with fit, w.quiet(), np.errstate(all="ignore"):
                    con(eq)
            except BaseException as e:
                err = e
            finally:
                f.remove()
            sim.time += f.n
            return err, f.fired or fit.fired

        def bystanders():
            now = w.machine_state(tok)
            sim.check([c.control for _, c in tok.coils] == flags, "control-switch-changed", "")
            for (label, a), (_, b), on in zip(before["coils"], now["coils"], flags):
                if not on:
                    sim.check(a == b, "uncontrolled-coil-changed", lambda: "%s: %s -> %s" % (label, a, b))
                else:
                    sim.check(w.same(geometry(a), geometry(b)), "coil-moved", lambda: "%s: %s -> %s" % (label, a, b))
            sim.check(np.array_equal(eq.plasma_psi, flux), "plasma-changed", "")

        if fault is not None:
            if k == "map":
                m0 = misfit()
            err, fired = attempt(fault)
            if fired is not None:
                ok = isinstance(err, fired) if isinstance(fired, type) else err is fired
                sim.check(ok, "failure-swallowed", lambda: "planned %r, control call gave %r" % (fired, err))
                d = w.difference(before, w.machine_state(tok))
                sim.check(d is None, "currents-not-restored", lambda: "%s after %s: %s" % (k if k == "con" else spec[0], fault, d))
                bystanders()
                sim.state(k, "fault", fault[0], fault[2])
            else:
                restore(tok, before)
        if k == "map":
            m0 = misfit()
        err, _ = attempt(None)
        if err is not None:
            acceptable = k == "map" and spec[0].startswith("norm") or not controlled(tok)
            if not acceptable:
                raise err
            sim.probe("fit-error-%s" % type(err).__name__)
            d = w.difference(before, w.machine_state(tok))
            sim.check(d is None, "currents-not-restored", lambda: "after %r: %s" % (err, d))
            continue
        bystanders()
        for _, c in tok.coils:
            if type(c).__name__ == "Circuit":
                for label, m, mult in c.coils:
                    sim.check(m.current == c.current * mult, "circuit-inconsistent", label)
        now = np.array([c.current for c in controlled(tok)])
        sim.check(bool(np.all(np.isfinite(now))), "current-not-finite", "")
        if k == "con":
            lims = spec.get("lims")
            if lims:
                for (lo, hi), (label, c) in zip(lims, tok.coils):
                    if c.control:
                        sim.check(lo - 1e-6 * (hi - lo) <= c.current <= hi + 1e-6 * (hi - lo), "limit-exceeded", lambda: "%s carries %g, limits %g %g" % (label, c.current, lo, hi))
            if spec.get("maxtot") and len(now):
                sim.check(np.sum(np.abs(now)) <= spec["maxtot"] * (1 + 1e-5), "total-exceeded", lambda: "%g > %g" % (np.sum(np.abs(now)), spec["maxtot"]))
            targets(plan, eq, tok, spec, before, sim)
        else:
            m1 = misfit()
            sim.check(m1 <= m0 * (1 + 1e-6) + 1e-14 or lims is not None or spec[0].startswith("norm"), "fit-worse", lambda: "%s: misfit %g before, %g after" % (spec[0], m0, m1))
            if possible and spec[0] == "psi":
                sim.check(m1 <= possible, "flux-map-not-met", lambda: "misfit %g before, %g after; scale %g" % (m0, m1, possible))
                sim.probe("map-met")
            if lims:
                for (lo, hi), (label, c) in zip(lims, controlled_named(tok)):
                    sim.check(lo - 1e-6 * (hi - lo) <= c.current <= hi + 1e-6 * (hi - lo), "limit-exceeded", lambda: "%s carries %g, limits %g %g" % (label, c.current, lo, hi))
        sim.state(k, spec[0] if k == "map" else [bool(spec.get("lims")), bool(spec.get("maxtot"))], len(tok.coils), len(now))
        sim.event("currents", w.digest(now))


def geometry(c):
    """A coil's observation without currents"""
    if c[0] == "Circuit":
        return [c[0], [[label, geometry(m), mult] for label, m, mult in c[3]]]
    return [c[0]] + c[3:]


def restore(tok, state):
    for (_, c), (_, s) in zip(tok.coils, state["coils"]):
        c.current = s[1]


def controlled_named(tok):
    return [(label, c) for label, c in tok.coils if c.control]


def targets(plan, eq, tok, spec, before, sim):
    A = target_matrix(plan, tok, spec)
    if A.size == 0:
        sim.probe("nothing-controlled")
        return
    m, n = A.shape
    sv = np.linalg.svd(A, compute_uv=False)
    if m > n or sv[m - 1] < 1e-3 * sv[0] or sv[m - 1] < 1e3 * spec["gamma"] or (n > m and spec["gamma"] < 3e-7 * sv[0]):
        sim.probe("targets-not-reachable")
        return
    ref = reference(plan, tok)
    res, mag = residual(eq, ref, spec)
    old, oldmag = residual_before(plan, eq, tok, before, spec)
    own = own_residual(eq, spec)
    free = not spec.get("lims") and not spec.get("maxtot")
    if not free:
        return
    sim.probe("targets-met")
    scale = mag + oldmag + 1e-9
    sim.check(bool(np.all(np.abs(own) <= 1e-3 * scale)), "target-not-met", lambda: "remaining %s, before %s, scale %s" % (own, old, scale))
    sim.check(bool(np.all(np.abs(res) <= 2e-2 * scale)), "target-not-met-ref", lambda: "remaining %s, before %s, scale %s" % (res, old, scale))


def residual_before(plan, eq, tok, before, spec):
    ref = plan["model"]
    for (_, s), (_, b) in zip(ref.src, before["coils"]):
        s.I = b[1]
    return residual(eq, ref, spec)


def map_control(eq, plan, spec, control):
    """A flux-map control whose target is the flux of other currents, its misfit, and the misfit expected of the best fit"""
    kind, currents, offset, wt, lims = spec
    tok = eq.tokamak
    weights = box(eq) if wt == "box" else np.ones(eq.R.shape)
    if not controlled(tok):
        return None, None, None
    old = [c.current for _, c in tok.coils]
    try:
        for (_, c), i in zip(tok.coils, currents):
            if c.control:
                c.current = i
        target = np.array(eq.psi())
    finally:
        for (_, c), i in zip(tok.coils, old):
            c.current = i

    def shape(p):
        return p - np.average(p, weights=weights)

    def misfit_psi():
        return float(np.sum(((shape(eq.psi()) - shape(target)) * weights) ** 2))

    if kind.startswith("psi"):
        # Sources which give different maps
        cols = np.array([(shape(c.controlPsi(eq.R, eq.Z)) * weights).ravel() for c in controlled(tok)]).T
        sv = np.linalg.svd(cols, compute_uv=False)
        possible = None
        if sv[-1] > 1e-4 * sv[0]:
            possible = 1e-10 * float(np.sum((shape(target) * weights) ** 2)) + 1e-14
        if kind == "psi":
            return control.ConstrainPsi2D(target + offset, weights=weights), misfit_psi, possible
        return control.ConstrainPsi2DAdvanced(shape(target), weights=weights, current_lims=lims), misfit_psi, None

    def norm(p):
        from freegs import critical

        with w.quiet():
            o, x = critical.find_critical(eq.R, eq.Z, p)
        if not o or not x:
            return None
        return (p - o[0][2]) / (x[0][2] - o[0][2])

    t = norm(target)
    if t is None or norm(eq.psi()) is None:
        return None, None, None

    def misfit_norm():
        p = norm(eq.psi())
        return np.inf if p is None else float(np.sum(((p - t) * weights) ** 2))

    if kind == "norm":
        return control.ConstrainPsiNorm2D(t, weights=weights), misfit_norm, None
    return control.ConstrainPsiNorm2DAdvanced(t, weights=weights, current_lims=lims), misfit_norm, None
