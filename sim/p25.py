"""P25: changing resolution or domain keeps the same plasma"""
import copy
import warnings

import numpy as np
from scipy.interpolate import RectBivariateSpline

from . import p09
from . import world as w
from .sched import LINE_EXC, LineTracer

RUNS = {"quick": 240, "thorough": 6000}
SHRINK = ["ops"]
RULE = "A plan is a solved equilibrium (any machine, grid, order, boundary condition, profiles, diverted or limited) and a history of refinements, coarsenings and changes of " \
       "domain, each possibly interrupted at a seeded line first or made with a boundary condition or solver which fails, mixed with solves and changes of current; each new " \
       "equilibrium is compared with the one it came from, solved, and its fields are compared with each other as in P09."
STATE_MEASURE = "distinct (operation, grid, new grid, order, boundary condition, profiles, limited, fault place) signatures"
TIME_UNIT = "operations"
REAL = ["freegs (equilibrium, solver, machine, profiles)", "numpy/scipy"]
STUB = ["wrappers of the boundary condition which fail at the planned call", "independent interpolation, finite-difference operator and loop fields (the reference)"]
ASSUMPTIONS = ["grids of 2^n+1 points with 17 to 65 points each way", "new domains contain the plasma",
               "flux agrees within interpolation error (refine, coarsen) or 15 % of the flux across the plasma (new domain)"]


def gen(rng, tier):
    plan = w.gen_solved(rng)
    if rng.flip(0.3) and plan["profiles"]["k"] != "func":
        plan["profiles"]["Ip"] = -plan["profiles"]["Ip"]
    if rng.flip(0.5):
        plan["grid"].update(nx=rng.choice([17, 33]), ny=rng.choice([17, 33]))
    if rng.flip(0.15):
        plan["grid"]["boundary"] = "freeBoundaryHagenow"
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice(["refine", "refine", "coarsen", "coarsen", "domain", "domain", "linear", "current"])
        fault = rng.choice([None, None, ["line", rng.uni(0, 1, 6), rng.choice(sorted(LINE_EXC))], ["boundary"]])
        if k == "refine":
            ops.append([k, fault, rng.choice([None, None, [17, 33], [33, 17], [33, 33], [17, 17], [33, 0], [0, 33]])])
        elif k == "coarsen":
            ops.append([k, fault])
        elif k == "domain":
            d = {}
            for f, lo, hi in (("Rmin", -0.05, 0.05), ("Rmax", -0.15, 0.25), ("Zmin", -0.2, 0.1), ("Zmax", -0.1, 0.2)):
                if rng.flip(0.5):
                    d[f] = rng.uni(lo, hi)
            for f in ("nx", "ny"):
                if rng.flip(0.35):
                    d[f] = rng.choice([17, 33])
            ops.append([k, fault, d])
        elif k == "current":
            ops.append([k, rng.uni(-0.02, 0.02)])
        else:
            ops.append([k])
    if not any(o[0] in ("refine", "coarsen", "domain") for o in ops):
        ops.append(["refine", None, None])
    plan["ops"] = ops
    return plan


class Stop(Exception):
    pass


def change(eq, op):
    from freegs import equilibrium

    if op[0] == "refine":
        if op[2] is None:
            return equilibrium.refine(eq)
        nx, ny = op[2]
        return equilibrium.refine(eq, nx=nx or None, ny=ny or None)
    if op[0] == "coarsen":
        return equilibrium.coarsen(eq)
    kw = {k: (v if k in ("nx", "ny") else round(getattr(eq, k) + v, 6)) for k, v in op[2].items()}
    return equilibrium.newDomain(eq, **kw)


def expected(eq, op):
    nx, ny = eq.R.shape
    dom = {k: getattr(eq, k) for k in ("Rmin", "Rmax", "Zmin", "Zmax")}
    if op[0] == "refine":
        a, b = op[2] or (0, 0)
        nx, ny = a or 2 * nx - 1, b or 2 * ny - 1
    elif op[0] == "coarsen":
        nx, ny = (nx + 1) // 2, (ny + 1) // 2
    else:
        nx, ny = op[2].get("nx", nx), op[2].get("ny", ny)
        for k in dom:
            dom[k] = round(dom[k] + op[2].get(k, 0.0), 6) if k in op[2] else dom[k]
    return nx, ny, dom


def look(eq):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return w.observe(eq)


DEV = {}


def dev(name, x):
    DEV[name] = max(DEV.get(name, 0.0), float(x))


def compare(sim, old, new, op, hagenow):
    nx, ny, dom = expected(old, op)
    sim.check(new is not old, "same-object", "")
    sim.check(new.R.shape == (nx, ny) and new.psi().shape == (nx, ny), "grid-shape", lambda: "%s of %r: %r" % (op, old.R.shape, new.R.shape))
    for k, v in dom.items():
        sim.check(abs(getattr(new, k) - v) < 1e-12, "domain", lambda: "%s is %r, not %r" % (k, getattr(new, k), v))
    sim.check(np.allclose(new.R[:, 0], np.linspace(dom["Rmin"], dom["Rmax"], nx)) and np.allclose(new.Z[0], np.linspace(dom["Zmin"], dom["Zmax"], ny)), "grid", "")
    sim.check(new.getMachine() is old.getMachine(), "machine", "the new equilibrium has another machine")
    sim.check(not np.shares_memory(new.plasma_psi, old.plasma_psi), "shared-flux", "the flux is shared with the old equilibrium")
    # -- flux
    span = max(abs(old.psi_axis - old.psi_bndry), 0.3 * np.ptp(old.plasma_psi))
    base = old
    if op[0] == "domain":
        # The same two steps on the old grid
        base = copy.deepcopy(old)
        own = base._profiles
        if getattr(own, "eq", base) is not base:
            own = copy.copy(own)
            own.eq = base
        try:
            base.solve(own)
            base.solve(own)
        except (ValueError, AssertionError):
            return False
        if not w.plasma_ok(base):
            return False
        if base.is_limited or new.is_limited or abs(base.plasmaCurrent()) < 6e4:
            # Where a plasma touches the wall, and how large a plasma of few cells is, depends on the grid
            sim.probe("domain-limited")
            return True
    S = RectBivariateSpline(old.R[:, 0], old.Z[0, :], base.plasma_psi)
    inside = (new.R >= old.Rmin) & (new.R <= old.Rmax) & (new.Z >= old.Zmin) & (new.Z <= old.Zmax)
    want = S(new.R, new.Z, grid=False)
    err = np.max(np.abs(new.plasma_psi - want)[inside]) / span
    if op[0] == "domain":
        dev("domain-flux" + ("-h" if hagenow else ""), err)
        sim.check(err <= (0.4 if hagenow else 0.15), "flux-changed", lambda: "plasma flux differs by %g of that across the plasma" % err)
    else:
        dev(op[0] + "-flux", err)
        sim.check(err <= 1e-6, "flux-changed", lambda: "plasma flux differs by %g of that across the plasma" % err)
        n = min(nx, ny, old.R.shape[0], old.R.shape[1])
        # (a small plasma on a wall may be lost among the other O-points of a coarse grid)
        if n >= 17 and not old.is_limited and not new.is_limited:
            a, b = np.array([old.Rmagnetic(), old.Zmagnetic()]), np.array([new.Rmagnetic(), new.Zmagnetic()])
            dev(op[0] + "-axis", np.hypot(*(a - b)))
            sim.check(np.hypot(*(a - b)) <= 0.08, "axis-moved", lambda: "axis moved from %r to %r" % (a, b))
        sim.check(new.plasmaCurrent() == old.plasmaCurrent(), "current-changed", lambda: "plasma current %r, was %r" % (new.plasmaCurrent(), old.plasmaCurrent()))
    rs, zs = np.array([0.7, 0.9, 1.1, 1.3]), np.array([0.2, -0.3, 0.1, -0.1])
    N = RectBivariateSpline(new.R[:, 0], new.Z[0, :], new.plasma_psi)
    got, ref = new.psiRZ(rs, zs), N(rs, zs, grid=False) + np.asarray(old.tokamak.psi(rs, zs))
    err = np.max(np.abs(got - ref)) / span
    dev(op[0] + "-query", err)
    sim.check(err <= 1e-9, "flux-query-changed", lambda: "psiRZ differs by %g of the flux across the plasma" % err)
    # -- profiles
    x = np.array([0.0, 0.2, 0.6, 0.9])
    for name in ("pressure", "fpol", "pprime", "ffprime"):
        a, b = getattr(old, name)(x), getattr(new, name)(x)
        err = np.max(np.abs(a - b)) / max(np.max(np.abs(a)), 1e-12)
        if op[0] != "domain":
            sim.check(err <= 1e-12, "profile-changed", lambda: "%s differs by %g" % (name, err))
        elif name in ("pressure", "fpol"):
            dev("domain-" + name, err)
    sim.check(new.fvac() == old.fvac(), "profile-changed", "fvac")
    return True


def run(plan, sim):
    import freegs

    grid = plan["grid"]
    hagenow = grid["boundary"] == "freeBoundaryHagenow"
    W = w.solved(plan, sim, seam=True)
    # The solver of the seam belongs to one grid: use each equilibrium's own
    eq, tok, constrain = W.eq, W.tok, W.constrain
    limited = bool(eq.check_limited)
    spec = plan["profiles"]
    prof = W.profiles
    for op in plan["ops"]:
        k = op[0]
        sim.time += 1
        sim.event("op", k, op[1:])
        with w.quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if k in ("linear", "current"):
                if k == "current":
                    for _, c in tok.coils:
                        c.current = c.current * (1 + op[1])
                try:
                    eq.solve(prof)
                except (ValueError, AssertionError):
                    return
                if not w.plasma_ok(eq):
                    return
                continue
            if k == "coarsen" and min(eq.R.shape) < 33 or k == "refine" and op[2] is None and max(eq.R.shape) > 33:
                continue
            before = look(eq)
            where = None
            if op[1]:
                where = attempt(W, eq, op, sim)
                d = w.difference(before, look(eq))
                sim.check(d is None, "failure-changed-original", lambda: "after a failed %s: %s" % (k, d))
            try:
                new = change(eq, op)
            except (ValueError, AssertionError, RuntimeError) as e:
                sim.event("failed", type(e).__name__)
                sim.probe("failed-" + k)
                d = w.difference(before, look(eq))
                sim.check(d is None, "failure-changed-original", lambda: "after a failed %s: %s" % (k, d))
                sim.check(k == "domain" or limited, "change-failed", lambda: "%s raised %r" % (k, e))
                return
            d = w.difference(before, look(eq))
            sim.check(d is None, "original-changed", lambda: "after %s: %s" % (k, d))
            if not compare(sim, eq, new, op, hagenow):
                return
            # -- it can be solved, with the profiles it has
            rs = np.linspace(new.Rmin + 0.1, new.Rmax - 0.1, 13)
            zs = np.clip(np.linspace(new.Zmin + 0.13, new.Zmax - 0.07, 13)[::-1] * np.cos(np.arange(13)), new.Zmin + 0.05, new.Zmax - 0.05)
            ctx = {"points": (rs, zs), "order": grid["order"], "boundary": grid["boundary"], "limited_check": limited, "Ip": spec.get("Ip"), "paxis": spec.get("paxis")}
            old_current = eq.plasmaCurrent()
            S = RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.plasma_psi)
            span = abs(eq.psi_axis - eq.psi_bndry)
            try:
                if k != "domain":
                    new.solve(new._profiles if hasattr(new, "_profiles") else w.build_profiles(spec, new))
                if min(new.R.shape) >= 9 and np.all(np.isfinite(new.psi())) and w.plasma_ok(new):
                    p09.judge(sim, new, ctx)
                else:
                    return
                d = w.difference(before, look(eq))
                sim.check(d is None, "original-changed", lambda: "after solving the result of %s: %s" % (k, d))
                cur = abs(new.plasmaCurrent() - old_current) / abs(old_current)
                dev(k + "-current", cur)
                inside = (new.R >= eq.Rmin) & (new.R <= eq.Rmax) & (new.Z >= eq.Zmin) & (new.Z <= eq.Zmax)
                err = np.max(np.abs(new.plasma_psi - S(new.R, new.Z, grid=False))[inside]) / span
                dev(k + "-solved" + ("-h" if hagenow else ""), err)
                new_prof = w.build_profiles(spec, new)
                freegs.solve(new, new_prof, constrain, rtol=3e-3, maxits=40, check_limited=limited)
                ok = w.plasma_ok(new)
            except (ValueError, AssertionError, RuntimeError) as e:
                sim.probe("solve-failed-" + k)
                return
            if not ok:
                return
            p09.judge(sim, new, ctx)
            sim.state(k, eq.R.shape, new.R.shape, grid["order"], grid["boundary"], spec["k"], bool(eq.is_limited), where)
            sim.event("Ip", "%.9g" % new.plasmaCurrent())
            eq, prof = new, new_prof


def attempt(W, eq, op, sim):
    """The same operation, which fails"""
    kind = op[1][0]
    if kind == "boundary":
        def fail(*args):
            sim.fault("boundary-error")
            raise Stop()

        W.seam.hook["boundary", "before"] = fail
        try:
            change(eq, op)
        except Stop:
            return "boundary"
        except (ValueError, AssertionError, RuntimeError):
            pass
        finally:
            W.seam.hook.clear()
        return None
    t = LineTracer()
    with t:
        try:
            change(copy.deepcopy(eq), op)
        except (ValueError, AssertionError, RuntimeError):
            pass
    t2 = LineTracer(1 + int(op[1][1] * t.n), LINE_EXC[op[1][2]], sim)
    try:
        with t2:
            change(eq, op)
    except BaseException:
        if not t2.fired:
            raise
    return t2.where
