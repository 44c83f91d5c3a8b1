"""P09: after every solve the equilibrium's fields are consistent"""
import numpy as np
from scipy.integrate import romb, simpson, trapezoid
from scipy.interpolate import RectBivariateSpline

from . import world as w
from .sched import LineTracer

RUNS = {"quick": 300, "thorough": 6000}
SHRINK = ["ops"]
RULE = "A plan is an equilibrium (any machine, grid, order, boundary condition, sign of the plasma current, limited or diverted) and a history of " \
       "linear and nonlinear solves, current changes, changes of profiles and of the linear solver, solves with a given current density, and failed or " \
       "interrupted solves; after every solve which succeeds the stored fields are compared with each other."
STATE_MEASURE = "distinct (operation, grid, order, boundary condition, profiles, limited, sign of the current, failures so far) signatures"
TIME_UNIT = "operations"
REAL = ["freegs (solver, machine, profiles, boundary conditions, critical points)", "numpy/scipy"]
STUB = ["independent finite-difference operator, loop fields and quadratures (the reference)"]
ASSUMPTIONS = ["coils are not moved after the equilibrium is created", "von Hagenow's boundary condition is only required to agree within 20 % (17-33 point grids)"]


def gen(rng, tier):
    plan = w.gen_solved(rng)
    kind = rng.choice(["free"] * 6 + ["hagenow", "fixed", "fixed"])
    if kind == "fixed":
        plan = {"machine": {"coils": [], "R0": 1.0}, "grid": dict(w.gen_grid(rng), boundary="fixedBoundary"), "profiles": w.gen_profiles(rng, ("paxis", "betap")), "constrain": None}
        plan["profiles"].update(am=1.0, an=rng.choice([1.0, 2.0]), Raxis=1.0)
        # The flux it starts from, zero or not on the edges
        plan["initial"] = rng.choice([None, [1.0, 0.0, 0.5, 0.1, 0.0], [rng.uni(0.8, 1.3), rng.uni(-0.3, 0.3), rng.uni(0.4, 1.2), rng.uni(0.05, 0.3), rng.choice([0.0, 0.02, -0.01])]])
    elif kind == "hagenow":
        plan["grid"]["boundary"] = "freeBoundaryHagenow"
    if rng.flip(0.35) and plan["profiles"]["k"] != "func":
        p = plan["profiles"]
        p["Ip"] = -p["Ip"]
    coils = [label for label, c in plan["machine"]["coils"]]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.choice(["linear", "linear", "control", "current", "currents", "picard", "short", "fail", "fail", "line", "given", "profiles", "vcycle", "limited", "psi", "copy"])
        if k == "current":
            if not coils:
                continue
            ops.append([k, rng.choice(coils), rng.uni(-0.05, 0.05)])
        elif k == "currents":
            ops.append([k, rng.uni(-0.03, 0.03)])
        elif k == "picard":
            ops.append([k, rng.choice([1e-2, 1e-3]), rng.choice([0.0, 0.0, 0.3])])
        elif k == "short":
            ops.append([k, rng.choice([1, 2])])
        elif k == "fail":
            ops.append([k, rng.choice(["profiles", "boundary", "solver"])])
        elif k == "line":
            ops.append([k, rng.uni(0, 1)])
        elif k == "given":
            ops.append([k, rng.uni(0.8, 1.2), rng.uni(-0.2, 0.2), rng.uni(0.1, 0.4), rng.uni(-5e5, 5e5, 0)])
        elif k == "profiles":
            s = dict(plan["profiles"])
            if "Ip" in s:
                s["Ip"] = float(round(s["Ip"] * rng.uniform(0.9, 1.1)))
                if "paxis" in s:
                    s["paxis"] = round(s["paxis"] * rng.uniform(0.8, 1.2), 1)
            ops.append([k, s])
        elif k == "vcycle":
            ops.append([k, rng.choice([0, 1])])
        elif k == "psi":
            ops.append([k, rng.uni(-0.01, 0.01)])
        else:
            ops.append([k])
    plan["ops"] = ops + [["linear"]]
    return plan


def integrals(f, dR, dZ):
    """Integral over the domain by each of the usual rules"""
    return [romb(romb(f)) * dR * dZ, trapezoid(trapezoid(f)) * dR * dZ, simpson(simpson(f)) * dR * dZ, np.sum(f) * dR * dZ]


def operator(psi, R, dR, dZ, order):
    """Finite-difference Delta* at points at least two away from the edge"""
    c = psi[2:-2, 2:-2]
    E, Wt = psi[3:-1, 2:-2], psi[1:-3, 2:-2]
    N, S = psi[2:-2, 3:-1], psi[2:-2, 1:-3]
    r = R[2:-2, 2:-2]
    if order == 2:
        return (E - 2 * c + Wt) / dR ** 2 - (E - Wt) / (2 * dR * r) + (N - 2 * c + S) / dZ ** 2
    EE, WW, NN, SS = psi[4:, 2:-2], psi[:-4, 2:-2], psi[2:-2, 4:], psi[2:-2, :-4]
    d2r = (-EE + 16 * E - 30 * c + 16 * Wt - WW) / (12 * dR ** 2)
    d2z = (-NN + 16 * N - 30 * c + 16 * S - SS) / (12 * dZ ** 2)
    d1r = (-EE + 8 * E - 8 * Wt + WW) / (12 * dR)
    return d2r - d1r / r + d2z


def judge(sim, eq, ctx):
    R, Z = eq.R, eq.Z
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    J, pp = np.array(eq.Jtor), np.array(eq.plasma_psi)
    # -- current
    Ip = eq.plasmaCurrent()
    scale = max(np.sum(np.abs(J)) * dR * dZ, 1e-300)
    best = min(abs(Ip - x) for x in integrals(J, dR, dZ))
    sim.check(best <= 1e-9 * scale, "current-not-integral", lambda: "plasma current %r, integrals of Jtor %r" % (Ip, integrals(J, dR, dZ)))
    if ctx.get("Ip") is not None:
        sim.check(abs(Ip - ctx["Ip"]) <= 1e-6 * abs(ctx["Ip"]), "requested-current", lambda: "plasma current %g, requested %g" % (Ip, ctx["Ip"]))
    if ctx.get("paxis") is not None:
        p0 = float(eq.pressure(0.0))
        sim.check(abs(p0 - ctx["paxis"]) <= 1e-5 * abs(ctx["paxis"]), "requested-pressure", lambda: "pressure on axis %g, requested %g" % (p0, ctx["paxis"]))
    # -- flux, however it is queried
    psi = eq.psi()
    coils = np.asarray(eq.tokamak.psi(R, Z)) if eq.tokamak.coils else np.zeros_like(R)
    ref = pp + coils
    tol = 1e-9 * max(np.max(np.abs(pp)), np.max(np.abs(coils)))
    sim.check(np.max(np.abs(psi - ref)) <= tol, "flux-sum", lambda: "psi() differs from plasma plus coils by %g" % np.max(np.abs(psi - ref)))
    d = np.max(np.abs(eq.psiRZ(R, Z) - psi))
    sim.check(d <= tol, "flux-query", lambda: "psiRZ at grid points differs from psi() by %g" % d)
    one = eq.psiRZ(R[5, 7], Z[5, 7])
    sim.check(np.shape(one) == () or np.size(one) == 1, "flux-query-scalar", "psiRZ of a point has shape %r" % (np.shape(one),))
    sim.check(abs(float(one) - psi[5, 7]) <= tol, "flux-query", "psiRZ of a single grid point")
    # -- plasma field is the derivative of the plasma flux
    rs, zs = ctx["points"]
    sp = RectBivariateSpline(R[:, 0], Z[0, :], pp)
    br, bz = -sp(rs, zs, dy=1, grid=False) / rs, sp(rs, zs, dx=1, grid=False) / rs
    b = max(np.max(np.hypot(br, bz)), 1e-12)
    for name, got, want in (("plasmaBr", eq.plasmaBr(rs, zs), br), ("plasmaBz", eq.plasmaBz(rs, zs), bz)):
        sim.check(np.max(np.abs(got - want)) <= 1e-6 * b, "plasma-field", lambda: "%s differs from the flux derivative by %g of %g" % (name, np.max(np.abs(got - want)), b))
    if eq.tokamak.coils:
        tbr, tbz = br + eq.tokamak.Br(rs, zs), bz + eq.tokamak.Bz(rs, zs)
    else:
        tbr, tbz = br, bz
    b = max(np.max(np.hypot(tbr, tbz)), b)
    sim.check(np.max(np.abs(eq.Br(rs, zs) - tbr)) <= 1e-6 * b and np.max(np.abs(eq.Bz(rs, zs) - tbz)) <= 1e-6 * b, "total-field", "Br, Bz are not plasma plus coils")
    sim.check(np.max(np.abs(eq.Bpol(rs, zs) - np.hypot(tbr, tbz))) <= 1e-6 * b, "total-field", "Bpol is not the magnitude of Br, Bz")
    # -- the linear equation and boundary condition
    if ctx["order"] == 2:
        # Also next to the edge
        c, r = pp[1:-1, 1:-1], R[1:-1, 1:-1]
        res = (pp[2:, 1:-1] - 2 * c + pp[:-2, 1:-1]) / dR ** 2 - (pp[2:, 1:-1] - pp[:-2, 1:-1]) / (2 * dR * r) + (pp[1:-1, 2:] - 2 * c + pp[1:-1, :-2]) / dZ ** 2
        res = res + w.MU0 * (R * J)[1:-1, 1:-1]
        size = np.max(np.abs(w.MU0 * R * J)) + 1e-6 * np.max(np.abs(pp)) / min(dR, dZ) ** 2
        sim.check(np.max(np.abs(res)) <= 1e-6 * size, "equation-residual", lambda: "Delta* psi + mu0 R J is up to %g, terms are %g" % (np.max(np.abs(res)), size))
    res = operator(pp, R, dR, dZ, ctx["order"]) + w.MU0 * (R * J)[2:-2, 2:-2]
    size = np.max(np.abs(w.MU0 * R * J)) + 1e-6 * np.max(np.abs(pp)) / dR ** 2
    sim.check(np.max(np.abs(res)) <= 1e-6 * size, "equation-residual", lambda: "Delta* psi + mu0 R J is up to %g, terms are %g" % (np.max(np.abs(res)), size))
    edges = [(x, y) for x in range(R.shape[0]) for y in (0, R.shape[1] - 1)] + [(x, y) for x in (0, R.shape[0] - 1) for y in range(R.shape[1])]
    got = np.array([pp[e] for e in edges])
    if ctx["boundary"] == "fixedBoundary":
        sim.check(np.max(np.abs(got)) <= 1e-12 + 1e-9 * np.max(np.abs(pp)), "boundary-condition", lambda: "fixed boundary, but plasma flux is up to %g on the edge" % np.max(np.abs(got)))
    else:
        want = []
        for x, y in edges:
            with np.errstate(all="ignore"):
                g = w.loop_psi(R[x, y], Z[x, y], R, Z)
            g[x, y] = 0.0
            want.append(integrals(g * J, dR, dZ))
        want = np.array(want)
        err = np.min(np.max(np.abs(want - got[:, None]), axis=0)) / np.max(np.abs(want))
        limit = 1e-6
        if ctx["boundary"] != "freeBoundary":
            # von Hagenow's method is for currents inside the domain, and approximate on these grids
            near = max(np.max(np.abs(J[s])) for s in (np.s_[:2], np.s_[-2:], np.s_[:, :2], np.s_[:, -2:])) / np.max(np.abs(J))
            limit = 0.2 if near < 1e-3 else np.inf
            sim.probe("hagenow" if near < 1e-3 else "hagenow-edge-current")
            mean = np.min(np.mean(np.abs(want - got[:, None]), axis=0)) / np.mean(np.abs(want))
            sim.check(near >= 1e-3 or mean <= 0.08, "boundary-condition", lambda: "edge flux differs from that of the plasma current by %g on average" % mean)
        sim.check(err <= limit, "boundary-condition", lambda: "edge flux differs from that of the plasma current by %g" % err)
    # -- axis, boundary, normalised flux
    critical_points(sim, eq, psi, ctx)


def critical_points(sim, eq, psi, ctx):
    from freegs import critical

    R, Z = eq.R, eq.Z
    opt, xpt = critical.find_critical(R, Z, psi)
    S = RectBivariateSpline(R[:, 0], Z[0, :], psi)
    if not opt or eq.psi_bndry is None:
        sim.probe("no-axis-or-boundary")
        return
    span = abs(eq.psi_axis - eq.psi_bndry)
    if span < 1e-4 * np.ptp(psi):
        sim.probe("vanishing-plasma")
        return

    def still(r, z):
        return np.hypot(S(r, z, dx=1)[0][0], S(r, z, dy=1)[0][0]) / r < 2e-3

    r, z, p = eq.magneticAxis()
    sim.check(still(r, z) and abs(S(r, z)[0][0] - p) <= 1e-8 * np.ptp(psi), "axis-not-stationary", "no extremum of the flux at the magnetic axis (%g, %g)" % (r, z))
    sim.check(abs(eq.psi_axis - p) <= 1e-8 * np.ptp(psi), "axis-flux-stale", lambda: "psi_axis is %r, flux at the magnetic axis is %r" % (eq.psi_axis, p))
    sim.check(abs(eq.Rmagnetic() - r) < 1e-12 and abs(eq.Zmagnetic() - z) < 1e-12, "axis-position", "Rmagnetic, Zmagnetic")
    want = (psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    sim.check(w.same_array(eq.psiN(), want, 1e-9), "normalised-flux", "psiN() is not the normalised psi()")
    rs, zs = ctx["points"]
    want = (eq.psiRZ(rs, zs) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    sim.check(w.same_array(eq.psiNRZ(rs, zs), want, 1e-9), "normalised-flux", "psiNRZ is not the normalised psiRZ")
    wall = eq.tokamak.wall
    if ctx["limited_check"] and wall is not None:
        wr, wz = wall_points(wall, 400)
        if xpt:
            keep = np.abs(wz) < 0.75 * abs(xpt[0][1])
            wr, wz = wr[keep], wz[keep]
        if len(wr) < 20:
            return
        f = S(wr, wz, grid=False)
        if not xpt and np.min(f) - 0.05 * span <= eq.psi_axis <= np.max(f) + 0.05 * span:
            # Without an X-point "outwards" is only defined if the axis is beyond every flux on the wall
            sim.probe("axis-within-wall-flux")
            return
        sign = 1.0 if eq.psi_axis > (xpt[0][2] if xpt else np.mean(f)) else -1.0
        top = np.max(sign * f)
        if eq.is_limited:
            # Limiter points are about 1-2 cm apart
            at = S(eq.Rlim, eq.Zlim)[0][0]
            sim.check(abs(at - eq.psi_bndry) <= 1e-6 * np.ptp(psi), "limiter-flux", lambda: "boundary flux %g, flux at the limiting point %g" % (eq.psi_bndry, at))
            dist = wall_distance(wall, eq.Rlim, eq.Zlim)
            sim.check(dist < 1e-6, "limiter-not-on-wall", lambda: "limiting point is %g m from the wall" % dist)
            sim.check(sign * eq.psi_bndry >= top - 0.05 * span - slack(S, wr, wz), "limiter-not-first-contact",
                      lambda: "boundary flux %g, but the wall reaches %g (axis %g)" % (eq.psi_bndry, sign * top, eq.psi_axis))
            if xpt:
                sim.check(sign * eq.psi_bndry >= sign * xpt[0][2] - 1e-8, "limited-outside-separatrix", "limited at %g outside the X-point's %g" % (eq.psi_bndry, xpt[0][2]))
        else:
            sim.check(sign * eq.psi_bndry >= top - 0.05 * span - slack(S, wr, wz), "limited-not-noticed", lambda: "boundary flux %g, but the wall reaches %g" % (eq.psi_bndry, sign * top))
        sim.probe("limited" if eq.is_limited else "not-limited")
    else:
        sim.check(not eq.is_limited, "limited-unasked", "plasma is called limited")
    if not eq.is_limited and xpt:
        near = [x for x in xpt if abs(x[2] - eq.psi_bndry) <= 1e-8 * np.ptp(psi)]
        sim.check(near, "boundary-flux-stale", lambda: "psi_bndry is %r, X-points have %r" % (eq.psi_bndry, [x[2] for x in xpt]))
        r, z, p = near[0]
        sim.check(still(r, z) and abs(S(r, z)[0][0] - p) <= 1e-8 * np.ptp(psi), "xpoint-not-stationary", "no stationary point of the flux at (%g, %g)" % (r, z))
        closer = [x for x in xpt if abs(x[2] - eq.psi_axis) < abs(eq.psi_bndry - eq.psi_axis) - 1e-8 * np.ptp(psi)]
        sim.check(not closer, "boundary-not-primary", lambda: "X-point %r is closer in flux to the axis than the boundary" % (closer[0],))


def slack(S, wr, wz):
    """Largest change of the flux over 2 cm along the wall"""
    g = np.hypot(S(wr, wz, dx=1, grid=False), S(wr, wz, dy=1, grid=False))
    return 0.02 * np.max(g)


def wall_points(wall, n):
    r, z = [], []
    m = len(wall.R)
    for i in range(m):
        f = np.linspace(0, 1, n)
        r.append(wall.R[i] + f * (wall.R[(i + 1) % m] - wall.R[i]))
        z.append(wall.Z[i] + f * (wall.Z[(i + 1) % m] - wall.Z[i]))
    return np.concatenate(r), np.concatenate(z)


def wall_distance(wall, r, z):
    best = np.inf
    m = len(wall.R)
    for i in range(m):
        a = np.array([wall.R[i], wall.Z[i]])
        d = np.array([wall.R[(i + 1) % m], wall.Z[(i + 1) % m]]) - a
        t = np.clip(np.dot(np.array([r, z]) - a, d) / max(np.dot(d, d), 1e-30), 0, 1)
        best = min(best, np.hypot(*(a + t * d - np.array([r, z]))))
    return best


class Planned(Exception):
    pass


def run(plan, sim):
    import copy

    import freegs

    grid = plan["grid"]
    if grid["boundary"] == "fixedBoundary":
        from freegs.machine import Machine

        tok = Machine([])
        seam = w.Seam(grid)
        eq = seam.build(tok)
        if plan.get("initial"):
            r, z, wid, amp, off = plan["initial"]
            eq = seam.build(tok, psi=off + amp * np.exp(-((eq.R - r) ** 2 + (eq.Z - z) ** 2) / wid ** 2))
        prof = w.build_profiles(plan["profiles"], eq)
        with w.quiet():
            try:
                freegs.solve(eq, prof, None, maxits=60, rtol=1e-3)
            except (RuntimeError, ValueError, AssertionError) as e:
                sim.skip("set-up did not converge: " + type(e).__name__)
        constrain = None
    else:
        W = w.solved(plan, sim, seam=True)
        seam = W.seam
        eq, tok, prof, constrain = W.eq, W.tok, W.profiles, W.constrain
    rs = np.linspace(grid["Rmin"] + 0.1, grid["Rmax"] - 0.1, 13)
    zs = np.linspace(grid["Zmin"] + 0.13, grid["Zmax"] - 0.07, 13)[::-1] * np.cos(np.arange(13))
    zs = np.clip(zs, grid["Zmin"] + 0.05, grid["Zmax"] - 0.05)
    ctx = {"points": (rs, zs), "order": grid["order"], "boundary": grid["boundary"], "limited_check": bool(eq.check_limited)}
    spec = plan["profiles"]

    def expect(spec):
        ctx["Ip"], ctx["paxis"] = spec.get("Ip"), spec.get("paxis")

    expect(spec)
    fails = 0
    judge(sim, eq, ctx)
    for op in plan["ops"]:
        k = op[0]
        sim.time += 1
        sim.event("op", k, op[1:])
        good = False
        psi0 = None
        try:
            with w.quiet(), np.errstate(all="ignore"):
                if k == "linear":
                    eq.solve(prof)
                    good = True
                elif k == "control":
                    if constrain is not None:
                        constrain(eq)
                        eq.solve(prof)
                        good = True
                elif k == "current":
                    tok[op[1]].current = tok[op[1]].current * (1 + op[2])
                elif k == "currents":
                    for _, c in tok.coils:
                        c.current = c.current * (1 + op[1])
                elif k == "picard":
                    freegs.solve(eq, prof, constrain, rtol=op[1], blend=op[2], maxits=30, check_limited=ctx["limited_check"])
                    good = True
                elif k == "short":
                    freegs.solve(eq, prof, constrain, rtol=1e-12, atol=0.0, maxits=op[1])
                elif k == "fail":
                    failing(eq, prof, op[1], seam, sim)
                elif k == "line":
                    other = copy.deepcopy(eq)
                    with LineTracer() as t:
                        other.solve(w.build_profiles(spec, other))
                    with LineTracer(1 + int(op[1] * t.n), KeyboardInterrupt, sim):
                        eq.solve(prof)
                elif k == "given":
                    J = op[4] * np.exp(-((eq.R - op[1]) ** 2 + (eq.Z - op[2]) ** 2) / op[3] ** 2)
                    eq.solve(prof, Jtor=J.copy())
                    sim.check(np.array_equal(eq.Jtor, J), "given-current-density", "Jtor is not the given one")
                    judge(sim, eq, dict(ctx, Ip=None, paxis=None))
                    freegs.solve(eq, prof, constrain, maxits=40)
                    good = True
                elif k == "profiles":
                    spec = op[1]
                    prof = w.build_profiles(spec, eq)
                    expect(spec)
                    eq.solve(prof)
                    good = True
                elif k == "vcycle":
                    # Either the equilibrium's own, or behind the seam
                    (eq if op[1:] == [1] else seam.twin).setSolverVcycle(nlevels=1, ncycle=1, niter=1, direct=True)
                    ctx["order"] = 2
                    eq.solve(prof)
                    good = True
                elif k == "limited":
                    if tok.wall is not None:
                        eq.check_limited = not eq.check_limited
                        ctx["limited_check"] = eq.check_limited
                        eq.solve(prof)
                        good = True
                elif k == "psi":
                    eq.solve(prof, psi=eq.psi() * (1 + op[1]))
                    good = True
                elif k == "copy":
                    eq = copy.deepcopy(eq)
                    tok = eq.tokamak
                    prof = w.build_profiles(spec, eq)
                    eq.solve(prof)
                    good = True
        except (Planned, KeyboardInterrupt):
            fails += 1
        except (RuntimeError, ValueError, AssertionError, np.linalg.LinAlgError) as e:
            # No plasma any more in this history, or not converged
            sim.event("failed", type(e).__name__)
            sim.probe("failed-" + k)
            fails += 1
            if k != "short":
                # Without a plasma there is nothing to compare; the run ends here
                if not np.all(np.isfinite(eq.psi())) or eq.psi_bndry is None or not w.plasma_ok(eq):
                    return
        ctx["limited_check"] = bool(eq.check_limited)
        if good:
            if not np.all(np.isfinite(eq.psi())):
                sim.probe("not-finite")
                return
            judge(sim, eq, ctx)
            sim.event("Ip", "%.9g" % eq.plasmaCurrent(), bool(eq.is_limited))
            sim.state(k, grid["nx"], grid["ny"], ctx["order"], ctx["boundary"], spec["k"], bool(eq.is_limited), eq.plasmaCurrent() > 0, fails)


def failing(eq, prof, place, seam, sim):
    """A solve in which one part fails"""

    def fail(*args):
        for x in args:
            x[0, :] = 1e3  # whatever it was working on is left unfinished
        sim.fault(place + "-error")
        raise Planned(place)

    if place == "profiles":

        class P:
            def Jtor(self, R, Z, psi, psi_bndry=None):
                prof.Jtor(R, Z, psi, psi_bndry=psi_bndry)
                fail()

        eq.solve(P())
        return
    seam.hook[place, "before"] = fail
    try:
        eq.solve(prof)
    finally:
        seam.hook.clear()
