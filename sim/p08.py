"""P08: the nonlinear solve returns only when converged, else raises"""
import numpy as np

from . import world as w
from .sched import CALL_EXC

RUNS = {"quick": 320, "thorough": 8000}
SHRINK = ["script", "faults", "attempts"]
RULE = "A plan is an equilibrium and a sequence of nonlinear solves with seeded options. The linear solver is either the real one or a stub which " \
       "returns a seeded sequence of fluxes (steady, stalling, oscillating, jumping, not finite); coil control, profiles, boundary or solver " \
       "fail at a seeded call of an attempt."
STATE_MEASURE = "distinct (options, iterations, which convergence criteria held in each iteration, outcome) signatures"
TIME_UNIT = "nonlinear iterations"
REAL = ["freegs.picard, freegs.equilibrium, freegs.critical, machine; coil control, profiles, boundary and linear solver in the runs which do not script them"]
STUB = ["linear solver (seeded sequence of fluxes, in most runs)", "recording wrappers of coil control, profiles and boundary"]
ASSUMPTIONS = ["the coil Green's functions do not change during a solve"]

EXC = CALL_EXC


def gen(rng, tier):
    plan = w.gen_solved(rng, limited=False, circuits=rng.flip(0.3), allow33=False)
    plan["grid"].update(nx=17, ny=17)
    if rng.flip(0.5):
        r0, r1, h = rng.uni(0.5, 0.8), rng.uni(1.3, 1.6), rng.uni(0.45, 0.85)
        plan["machine"]["wall"] = [[r0, r0, r1, r1], [-h, h, h, -h]]
    plan["attempts"] = [gen_attempt(rng, plan) for _ in range(rng.choice([1, 2, 3]))]
    return plan


def gen_attempt(rng, plan):
    opt = {}
    if rng.flip(0.7):
        opt["rtol"] = rng.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-6])
    if rng.flip(0.3):
        opt["atol"] = rng.choice([1e-2, 1e-3, 1e-5, 0.0])
    if rng.flip(0.3):
        opt["blend"] = rng.choice([0.1, 0.3, 0.5, 0.9])
    opt["maxits"] = rng.choice([1, 2, 3, 5, 10, 20])
    slow = rng.flip(0.04)  # converging only after very many iterations
    if slow:
        opt["maxits"] = rng.choice([60, 110, 110])
    if rng.flip(0.05):
        opt["maxits"] = None
    if rng.flip(0.7):
        opt["convergenceInfo"] = True
    if plan["machine"].get("wall") and rng.flip(0.6):
        opt["check_limited"] = True
        if rng.flip(0.5):
            opt["wait_for_limited"] = True
        if rng.flip(0.5):
            opt["limit_it"] = rng.choice([1, 2, 4])
    elif rng.flip(0.1):
        opt["wait_for_limited"] = True
    if slow:
        opt.update(rtol=1e-4, convergenceInfo=True)
        for key in ("atol", "blend", "wait_for_limited"):
            opt.pop(key, None)
    a = {"opt": opt, "kind": "script" if slow else rng.choice(["script", "script", "script", "real"]), "constrain": rng.choice(["none", "real", "real", "wiggle"]), "faults": []}
    if a["kind"] == "script":
        n = 1 + (opt["maxits"] or 20)
        size = rng.choice([1e-1, 1e-2, 1e-3, 1e-4])
        mode = rng.choice(["steady", "decay", "decay", "alternate", "jump", "random", "edge", "lost"])
        script = []
        for k in range(n + 1):
            if mode == "steady":
                e = size
            elif mode == "decay":
                e = size * 0.3 ** k
            elif mode == "alternate":
                e = size * (-1) ** k * (1 if k < n // 2 or rng.flip(0.5) else 0.01)
            elif mode == "jump":
                e = size if k % 4 == 3 else 0.0
            elif mode == "edge":
                # Steps just above and below the tolerance
                r = opt.get("rtol", 1e-3)
                e = (script[-1][1] if script else 0.0) + r * rng.choice([0.9, 0.99, 1.01, 1.1, 0.5, 0.1])
            else:
                e = size * rng.uniform(-1, 1)
            script.append([rng.choice(["core", "edge", "all", "const"]) if mode == "random" else "", e])
        if mode == "lost":
            # The X-points disappear, and the flux stays like this
            opt["atol"] = rng.choice([1e-2, 1e-3])
            k0 = rng.choice([1, 2, 2, 3])
            script = [["core", size * k] if k < k0 else ["wide", 3.0] for k in range(n + 1)]
        shape = rng.choice(["core", "edge", "all", "const"])
        for s in script:
            s[0] = s[0] or shape
            s[1] = float("%.6g" % s[1])
        if slow:
            k0 = rng.choice([30, 52, 70, 104])
            script = [[shape, 0.02 * (k % 2) if k < k0 else 0.0] for k in range(n + 1)]
        elif rng.flip(0.1):
            script[rng.randrange(len(script))][0] = rng.choice(["nan", "inf"])
        a["script"] = script
        a["offset"] = rng.choice([None, None, 0.0, 1e-4, 1e-2, -1e-3])  # boundary flux close to zero
    if a["constrain"] == "none" and opt.get("check_limited"):
        a["constrain"] = "noop"
    if rng.flip(0.5):
        a["faults"] = [[rng.choice(["constrain", "profiles", "boundary", "solver"]), rng.randrange(1, 1 + min(opt["maxits"] or 9, 6)), rng.choice(sorted(EXC))]]
    return a


class Stop(BaseException):
    """Ends solves without an iteration limit"""


def run(plan, sim):
    W = w.solved(plan, sim)
    eq, tok = W.eq, W.tok
    W.base, W.J0 = np.array(eq.plasma_psi), np.array(eq.Jtor)
    W.currents = [c.current for _, c in tok.coils]
    W.span = np.ptp(eq.psi())
    W.psib = float(eq.psi_bndry)
    xx, yy = np.meshgrid(np.linspace(-1, 1, eq.R.shape[0]), np.linspace(-1, 1, eq.R.shape[1]), indexing="ij")
    W.shapes = {"core": np.exp(-(xx ** 2 + yy ** 2) / 0.08), "edge": np.exp(-((xx - 0.9) ** 2 + (yy - 0.8) ** 2) / 0.05),
                "all": W.base / np.max(np.abs(W.base)), "const": np.ones_like(W.base),
                "wide": np.exp(-(xx ** 2 + yy ** 2) / 0.6)}
    W.linear_solver = eq.callSolver  # the real one, through the equilibrium which was solved first
    W.sound = False
    for number, a in enumerate(plan["attempts"]):
        for f in a["faults"][:1] + [None]:
            restore(plan, W)
            attempt(plan, sim, W, number, a, f)


def restore(plan, W):
    """Coil currents as at the start; a new equilibrium if the last attempt left none with a plasma"""
    import freegs
    from freegs import boundary

    for (_, c), i in zip(W.tok.coils, W.currents):
        c.current = i
    if not W.sound:
        g = plan["grid"]
        W.hooks = {"boundary": boundary.freeBoundary, "solver": W.linear_solver}
        W.live = freegs.Equilibrium(tokamak=W.tok, Rmin=g["Rmin"], Rmax=g["Rmax"], Zmin=g["Zmin"], Zmax=g["Zmax"], nx=g["nx"], ny=g["ny"], order=g["order"],
                                    psi=W.base.copy(), current=W.eq.plasmaCurrent(), boundary=lambda e, J, psi: W.hooks["boundary"](e, J, psi))
        W.live.setSolver(lambda x, b: W.hooks["solver"](x, b))
        W.live_profiles = w.build_profiles(plan["profiles"], W.live)


def attempt(plan, sim, W, number, a, fault):
    import freegs
    from freegs.boundary import freeBoundary

    eq, tok, base, J0, shapes, span = W.live, W.tok, W.base, W.J0, W.shapes, W.span
    opt = dict(a["opt"])
    rtol, atol, maxits = opt.get("rtol", 1e-3), opt.get("atol", 1e-10), opt.get("maxits", 50)
    calls = {"constrain": 0, "profiles": 0, "boundary": 0, "solver": 0}
    hist = []  # per iteration: flux in, flux out, boundary flux, limited
    now = {}
    planned = []

    def hit(place):
        calls[place] += 1
        if fault and fault[0] == place and calls[place] == fault[1] and not planned:
            planned.append(EXC[fault[2]]("planned"))
            sim.fault("%s-%s" % (place, fault[2]))
            raise planned[0]

    class Profiles:
        def Jtor(self, R, Z, psi, psi_bndry=None):
            look()
            now["in"] = np.array(psi)
            if a["kind"] == "real":
                J = W.live_profiles.Jtor(R, Z, psi, psi_bndry=psi_bndry)
            else:
                J = J0
            hit("profiles")
            return J

        def __getattr__(self, name):
            return getattr(W.live_profiles, name)

    def look():
        """Note the boundary found in the last iteration"""
        if hist and "bndry" not in hist[-1]:
            b = getattr(eq, "psi_bndry", None)
            hist[-1].update(limited=bool(eq.is_limited), bndry=None if b is None else float(b))

    def boundary(e, J, psi):
        hit("boundary")
        freeBoundary(e, J, psi)

    offset = 0.0
    if a["kind"] == "script" and a["offset"] is not None:
        offset = a["offset"] * span - W.psib

    def solver(x, b):
        hit("solver")
        k = len(hist)
        if a["kind"] == "real":
            out = W.linear_solver(x, b)
        else:
            shape, e = a["script"][min(k, len(a["script"]) - 1)] if a["script"] else ["core", 0.0]
            if shape in ("nan", "inf"):
                out = base * float(shape)
                sim.fault("solver-returns-" + shape)
            else:
                out = base + offset + e * span * shapes[shape]
        total = out + tok.psi(eq.R, eq.Z)
        hist.append({"in": now.pop("in", None), "out": total})
        sim.time += 1
        if maxits is not None:
            sim.check(len(hist) <= maxits + 1, "iterations-unbounded", "%d iterations, maximum is %d" % (len(hist), maxits))
        elif len(hist) > 60:
            raise Stop()
        return out

    constrain = None
    if a["constrain"] != "none":

        def constrain(e):
            look()
            if a["constrain"] == "noop":
                pass
            elif a["constrain"] == "real":
                W.constrain(e)
            else:
                # A control system which always changes something (less and less)
                c = [c for _, c in tok.coils if c.control][0]
                c.current = c.current + 1e3 * 0.5 ** calls["constrain"] * (-1) ** calls["constrain"]
            hit("constrain")

    W.hooks = {"boundary": boundary, "solver": solver}
    err = result = None
    try:
        with w.quiet(), np.errstate(all="ignore"):
            result = freegs.solve(eq, Profiles(), constrain, **opt)
    except BaseException as e:
        if type(e).__name__ == "Violation":
            raise
        err = e
    finally:
        W.hooks = {"boundary": freeBoundary, "solver": W.linear_solver}
    look()
    # -- independent account of what happened
    sig = []
    met = []
    last = 0.0
    for k, h in enumerate(hist):
        change = np.max(np.abs(h["in"] - h["out"]))
        rel = change / np.ptp(h["out"])
        h["change"], h["rel"] = change, rel
        # Quantities differ by rounding between this account and the code's own
        small = {s: change < atol * s or rel < rtol * s for s in (1 - 1e-6, 1 + 1e-6)}
        if h["bndry"] is None:
            edge = dict.fromkeys(small, False)
        else:
            d = abs(h["bndry"] - last)
            with np.errstate(all="ignore"):
                edge = {s: bool(d < atol * s or d < abs(h["bndry"]) * rtol * s) for s in small}
            last = h["bndry"]
        wait = not opt.get("wait_for_limited") or h["limited"]
        met.append([bool(small[s] and edge[s] and wait) for s in sorted(small)])
        sig.append((small[1 + 1e-6], edge[1 + 1e-6], h["limited"]))
    outcome = "returned" if err is None else type(err).__name__
    sim.event("attempt", number, a["kind"], sorted(opt.items(), key=str), len(hist), outcome, ["%.6g" % h["rel"] for h in hist])
    sim.state(sorted((k, str(v)) for k, v in opt.items()), len(hist), sig, outcome)
    sim.probe("outcome-" + outcome)
    if planned:
        sim.check(err is planned[0], "failure-swallowed", "%s in %s call %d: solve gave %r (%s)" % (fault[2], fault[0], fault[1], err, outcome))
    elif err is None:
        sim.check(len(hist) > 0, "returned-without-solving", "solve returned without an iteration")
        h = hist[-1]
        sim.check(met[-1][1], "returned-unconverged",
                  lambda: "solve returned after %d iterations with %s: last change %g (relative %g), boundary %r after %r, limited %r" % (
                      len(hist), opt, h["change"], h["rel"], h["bndry"], hist[-2]["bndry"] if len(hist) > 1 else None, h["limited"]))
        sim.check(w.same_array(eq.psi(), h["out"], 1e-12), "result-not-last-iteration", "the flux is not that of the last iteration")
        if opt.get("wait_for_limited"):
            sim.check(bool(eq.is_limited), "returned-not-limited", "solve returned with a plasma which is not limited")
        early = [k for k in range(len(hist) - 1) if met[k][0]]
        sim.check(not early, "iterated-past-convergence", "converged in iteration %s, returned after %d" % (early, len(hist)))
        if opt.get("convergenceInfo"):
            sim.check(isinstance(result, tuple) and len(result) == 2, "convergence-info-missing", "returned %r" % (result,))
            mx, rl = (np.asarray(x, dtype=float) for x in result)
            sim.check(len(mx) == len(hist) and len(rl) == len(hist), "convergence-info-length", "%d and %d entries for %d iterations" % (len(mx), len(rl), len(hist)))
            scale = max(np.max(np.abs(x["out"])) for x in hist)
            for i, x in enumerate(hist):
                sim.check(abs(mx[i] - x["change"]) <= 1e-9 * x["change"] + 1e-13 * scale, "convergence-info-wrong",
                          lambda: "iteration %d: reported change %g, was %g" % (i, mx[i], x["change"]))
                sim.check(abs(rl[i] - x["rel"]) <= 1e-9 * x["rel"] + 1e-12, "convergence-info-wrong", lambda: "iteration %d: reported relative change %g, was %g" % (i, rl[i], x["rel"]))
        else:
            sim.check(result is None, "unexpected-result", "solve returned %r" % (result,))
    else:
        finite = all(np.all(np.isfinite(x["out"])) for x in hist)
        early = [k for k in range(len(hist)) if met[k][0]]
        if isinstance(err, RuntimeError) and "iteration" in str(err):
            sim.check(not early, "converged-but-raised", "iteration %s met the criteria, but solve raised %r" % (early, err))
            sim.check(maxits is not None and len(hist) >= maxits, "gave-up-early", "raised %r after %d iterations, maximum is %r" % (err, len(hist), maxits))
        elif isinstance(err, Stop):
            sim.check(not early, "converged-but-continued", "iteration %s met the criteria, solve went on" % early)
        elif isinstance(err, Exception):
            sim.check(not early, "converged-but-raised", "iteration %s met the criteria, but solve raised %r" % (early, err))
            if finite and a["kind"] == "script":
                # No plasma found in a scripted flux (or no wall point to be limited by)
                sim.probe("no-plasma")
        else:
            raise err
    for k, h in enumerate(hist):
        if not opt.get("check_limited"):
            sim.check(not h["limited"], "limited-unasked", "plasma is called limited, but this was not to be checked")
        elif k < opt.get("limit_it", 0):
            sim.check(not h["limited"] or any(x["limited"] for x in hist[:k]), "limited-too-early", "iteration %d" % k)
    W.sound = bool(hist and np.all(np.isfinite(hist[-1]["out"])) and np.all(np.isfinite(eq.psi())) and eq.psi_bndry is not None and w.plasma_ok(eq))
    sim.probe("continued" if W.sound else "rebuilt")
