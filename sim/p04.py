"""P04: reading G-EQDSK files"""
import re
import warnings

import numpy as np

from . import p03
from . import world as w
from .disk import TextReader, TextWriter
from .sched import CALL_EXC, LINE_EXC, LineTracer

RUNS = {"quick": 160, "thorough": 5000}
SHRINK = ["ops"]
RULE = "A plan is a solved diverted equilibrium, exported, and a history of reads of the file onto one machine (with any coil currents " \
       "already in it): clean reads with any options, truncated files, read errors at a seeded operation, interrupts at a seeded line " \
       "or of a query of the machine, reads without time to converge, each followed by further reads."
STATE_MEASURE = "distinct (operation, options, read operation or interrupted function, outcome) signatures"
REAL = ["freegs (all of it)", "freeqdsk", "numpy/scipy"]
STUB = ["input file (simulated text file)"]
ASSUMPTIONS = ["files cut inside their very last number are indistinguishable from complete ones", "accuracy limits are those of the fit on "
               "coarse grids: plasma current 6 %, normalised core flux 0.05, axis 9 mm; profiles and geometry to the precision of the file",
               "reads with current bounds are only required to respect the bounds (or raise)"]

# Errors which nothing in the reader treats as ordinary
MACHINE_EXC = {k: v for k, v in CALL_EXC.items() if k not in ("KEY", "ATT", "TYP", "STP")}
TOL_IP, TOL_PSI, TOL_AXIS = 0.06, 0.05, 0.009


def gen(rng, tier):
    plan = w.gen_solved(rng, limited=False, profiles=("paxis", "paxis", "paxis", "betap", "betap", "betap", "func"))
    if rng.flip(0.7):
        plan["grid"]["nx"] = 17
    if plan["machine"].get("wall"):
        plan["machine"]["wall"] = rng.choice([w.WALLS[1], w.WALLS[2], [[0.4, 0.4, 1.3, 1.95, 1.3], [-0.9, 0.9, 0.97, 0.0, -0.97]]])
    plan["start"] = rng.choice(["zero", "same", "scrambled", "scrambled"])
    nc = len(plan["machine"]["coils"])
    plan["R0"] = rng.choice([None, None, 0.5, 1.3])  # reference radius of the machine before reading
    # Wall of the machine before reading: of the file, another, or none
    wall = plan["machine"].get("wall")
    plan["wall"] = rng.choice(["same", "same", None, "scaled", w.WALLS[1], w.WALLS[2]])
    if plan["wall"] == "scaled" and wall:
        plan["wall"] = [[round(1 + 1.15 * (x - 1), 6) for x in wall[0]], [round(1.1 * x, 6) for x in wall[1]]]
    if plan["wall"] not in ("same", None) and not wall:
        plan["wall"] = [[0.15, 0.15, 1.9, 1.9], [-0.97, 0.97, 0.97, -0.97]]  # the machine keeps it
    plan["currents"] = [rng.uni(-1e5, 1e5, 1) for _ in range(nc)]
    ops = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        k = rng.choice(["cut", "cut", "ioerr", "line", "line", "machine", "machine", "read", "scramble", "othermachine", "hopeless"])
        if k == "cut":
            ops.append([k, rng.uni(0, 1)])
        elif k == "ioerr":
            ops.append([k, rng.uni(0, 1), rng.choice(["EIO", "INT"])])
        elif k == "line":
            ops.append([k, rng.uni(0, 1), rng.choice(sorted(LINE_EXC))])
        elif k == "machine":
            ops.append([k, rng.uni(0, 1), rng.choice(sorted(MACHINE_EXC))])
        elif k == "hopeless":
            ops.append([k, rng.choice([1, 2, 3]), rng.choice([0.0, 0.3])])
        elif k == "scramble":
            ops.append([k, [rng.uni(-1e5, 1e5, 1) for _ in range(nc)]])
        else:
            ops.append([k])
    opt = rng.choice(["plain", "plain", "plain", "fit_sol", "blend", "domain", "bounds", "ntheta", "rtol"])
    final = {"opt": opt}
    if opt == "blend":
        final["blend"] = rng.choice([0.1, 0.3])
    elif opt == "domain":
        final["domain"] = rng.choice([[0.15, 2.1, -1.0, 1.0], [0.3, 1.9, -0.95, 0.95], [0.2, 2.4, -1.2, 1.1]])
    elif opt == "bounds":
        final["bound"] = rng.choice([5e4, 1e5, 3e5])
    elif opt == "ntheta":
        final["ntheta"] = rng.choice([4, 16])
    elif opt == "rtol":
        final["rtol"] = rng.choice([1e-2, 1e-4])
    plan["ops"] = ops + [["final", final]]
    return plan


def read(fh, tok, **kw):
    from freegs import geqdsk

    with warnings.catch_warnings(), w.quiet(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return geqdsk.read(fh, tok, **kw)


def summary(eq, ref):
    """Values compared between reads, on the grid of the exported equilibrium"""
    axis = eq.magneticAxis()
    psi = eq.psiRZ(ref.R, ref.Z)
    return {"Ip": eq.plasmaCurrent(), "axis": axis, "h": max(eq.dR, eq.dZ), "psin": (psi - axis[2]) / (eq.psi_bndry - axis[2])}


def core_of(eq):
    """Well inside the plasma: points whose flux is below 0.9 and which are connected to the axis"""
    return (eq.mask > 0) & (np.abs((eq.psi() - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)) < 0.9)


def compare(sim, a, b, core, kind, factor=1.0):
    sim.check(abs(a["Ip"] - b["Ip"]) <= factor * TOL_IP * abs(b["Ip"]), kind + "-plasma-current", lambda: "%g, exported %g" % (a["Ip"], b["Ip"]))
    d = np.hypot(a["axis"][0] - b["axis"][0], a["axis"][1] - b["axis"][1])
    # The search for the axis is only good to some hundredths of a grid cell
    sim.check(d <= max(factor * TOL_AXIS, 0.03 * b["h"]), kind + "-axis", lambda: "axis is %g m from the exported one" % d)
    e = np.max(np.abs(a["psin"] - b["psin"])[core])
    sim.check(e <= factor * TOL_PSI, kind + "-flux", lambda: "normalised core flux differs by %g" % e)


def touches_wall(eq):
    """Reading checks whether the plasma is limited: the exported one must be clear of the wall"""
    wall = eq.tokamak.wall
    if wall is None:
        return False
    zx = max(abs(c[1]) for c in _xpoints(eq)[:1])
    r, z = [], []
    n = len(wall.R)
    for i in range(n):
        f = np.linspace(0, 1, 60)
        r.append(wall.R[i] + f * (wall.R[(i + 1) % n] - wall.R[i]))
        z.append(wall.Z[i] + f * (wall.Z[(i + 1) % n] - wall.Z[i]))
    r, z = np.concatenate(r), np.concatenate(z)
    near = np.abs(z) < 0.8 * zx
    axis = eq.magneticAxis()
    pn = (eq.psiRZ(r[near], z[near]) - axis[2]) / (eq.psi_bndry - axis[2])
    return len(pn) > 0 and np.min(pn) < 1.03


def _xpoints(eq):
    from freegs import critical

    return critical.find_critical(eq.R, eq.Z, eq.psi())[1]


class Calls:
    """Calls of a machine's methods during a read; the n-th fails"""

    NAMES = ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz", "controlCurrents", "setControlCurrents", "controlAdjust", "createPsiGreens", "calcPsiFromGreens")

    def __init__(self, tok, at=None, exc=None, sim=None):
        self.tok, self.at, self.exc, self.sim = tok, at, exc, sim
        self.n, self.fired, self.where = 0, None, None
        for name in self.NAMES:
            setattr(tok, name, self.wrap(name, getattr(tok, name)))

    def wrap(self, name, f):
        def g(*a, **k):
            self.n += 1
            if self.n == self.at:
                self.fired, self.where = self.exc("planned"), name
                self.sim.fault("machine-" + self.exc.__name__)
                raise self.fired
            return f(*a, **k)

        return g

    def remove(self):
        for name in self.NAMES:
            delattr(self.tok, name)


def fixed(tok):
    return [[label, w.coil_state(c)] for label, c in tok.coils if not c.control]


def run(plan, sim):
    W = w.solved(plan, sim, 5e-4, 80)
    src = W.eq
    fh = TextWriter()
    p03.export(src, fh, "g")
    text = fh.getvalue()
    ends = [m.end() for m in re.finditer(r"[-+ ]\d\.\d+E[-+]\d\d", text)]
    want = summary(src, src)
    core = core_of(src)
    if touches_wall(src):
        sim.skip("exported plasma touches the wall")
    if abs(src.plasmaCurrent()) < 6e4 or np.sum(core) < 20:
        sim.skip("plasma too small for the grid")
    spec = dict(plan["machine"])
    if plan.get("wall", "same") != "same":
        spec["wall"] = plan["wall"]
    tok = w.build_machine(spec)
    srccoils = [c for _, c in W.tok.coils]

    def scramble(values):
        for (_, c), v in zip(tok.coils, values):
            if c.control:
                c.current = v

    if plan["start"] == "scrambled":
        scramble(plan["currents"])
    elif plan["start"] == "same":
        scramble([c.current for c in srccoils])
    if plan["R0"]:
        tok.R0 = plan["R0"]
    fixed0 = fixed(tok)

    def good(eq, domain=None):
        """eq reconstructs the exported equilibrium"""
        from freegs import Equilibrium

        sim.check(isinstance(eq, Equilibrium), "read-partial", "read returned %r" % (eq,))
        sim.check(eq.tokamak is tok, "read-machine", "equilibrium is not on the given machine")
        dom = domain or [src.Rmin, src.Rmax, src.Zmin, src.Zmax]
        p03.close(sim, [eq.R[0, 0], eq.R[-1, 0], eq.Z[0, 0], eq.Z[0, -1]], dom, "read-domain", 1e-7)
        if domain is None:
            sim.check(eq.R.shape == src.R.shape, "read-grid", "%s, exported %s" % (eq.R.shape, src.R.shape))
        if src.tokamak.wall is not None and len(src.tokamak.wall.R) > 3:
            p03.close(sim, tok.wall.R, src.tokamak.wall.R, "read-wall", 1e-7, 1.0)
            p03.close(sim, tok.wall.Z, src.tokamak.wall.Z, "read-wall", 1e-7, 1.0)
        p03.close(sim, [tok.R0], [src.tokamak.R0], "read-reference-radius")
        p03.close(sim, [eq.fvac()], [src.fvac()], "read-vacuum-field", 1e-7)
        x = np.linspace(0.0, 1.0, src.R.shape[0])
        p03.close(sim, eq.pressure(x), src.pressure(x), "read-pressure", 1e-7)
        p03.close(sim, eq.fpol(x), src.fpol(x), "read-fpol", 1e-7)
        # derivatives belong to this flux map: p' = dp/dpsi, over the exported flux range
        got, exp = np.array([eq.pprime(v) for v in x[2:-2]]), np.array([src.pprime(v) for v in x[2:-2]])
        sim.check(np.max(np.abs(got - exp)) < 0.05 * np.max(np.abs(exp)), "read-pprime", lambda: "p' differs by %g of %g" % (np.max(np.abs(got - exp)), np.max(np.abs(exp))))
        a = summary(eq, src)
        compare(sim, a, want, core, "read")
        d = w.difference(fixed0, fixed(tok))
        sim.check(d is None, "uncontrolled-coil-changed", d)
        # The coil currents: as well as the core flux determines them
        span = abs(want["axis"][2] - src.psi_bndry)
        for (label, c), c0 in zip(tok.coils, srccoils):
            if c.control:
                keep = c0.current
                c0.current = 1.0
                g = np.asarray(c0.psi(src.R, src.Z))[core]
                c0.current = keep
                effect = abs(c.current - c0.current) * (np.max(g) - np.min(g))
                sim.check(effect < 0.6 * span, "read-coil-current", lambda: "current of %s is %g, exported %g" % (label, c.current, c0.current))
        coilflux = tok.psi(src.R, src.Z)[core] - W.tok.psi(src.R, src.Z)[core]
        e = (np.max(coilflux) - np.min(coilflux)) / span
        sim.check(e < 0.12, "read-coil-flux", lambda: "flux of the coils differs by %g of the plasma's range" % e)
        return a

    # An undisturbed read of the file onto a fresh machine, well within the allowed number of iterations
    fresh = w.build_machine(plan["machine"])
    try:
        read(TextReader(text), fresh, maxits=25)
    except (RuntimeError, ValueError, AttributeError, TypeError, AssertionError) as e:
        sim.skip("undisturbed read: %s" % type(e).__name__)
    last = None
    for op in plan["ops"]:
        k = op[0]
        sim.event("op", k, op[1] if len(op) > 1 and not isinstance(op[1], (list, dict)) else "")
        err, eq, must = None, None, None
        if k == "scramble":
            scramble(op[1])
            continue
        if k == "othermachine":
            # Somebody else reads the same text onto their own machine
            other = w.build_machine(plan["machine"])
            read(TextReader(text), other)
            continue
        if k == "cut":
            pos = ends[min(int(op[1] * (len(ends) - 1)), len(ends) - 2)]
            sim.fault("truncated-file")
            try:
                eq = read(TextReader(text[:pos]), tok)
            except BaseException as e:
                err = e
            sim.check(isinstance(err, Exception), "truncated-file-accepted", "file cut at %d of %d characters was read" % (pos, len(text)))
            sim.state(k, type(err).__name__)
        elif k == "ioerr":
            probe = TextReader(text)
            from freeqdsk import geqdsk as fq

            fq.read(probe, cocos=1)
            fh = TextReader(text, fail_at=1 + int(op[1] * probe.n), kind=op[2], sim=sim)
            try:
                eq = read(fh, tok)
            except BaseException as e:
                err = e
            if fh.fired:
                must = KeyboardInterrupt if op[2] == "INT" else OSError
                sim.check(isinstance(err, must), "read-error-swallowed", "%s at operation %d: read gave %r" % (op[2], fh.fail_at, err))
            sim.state(k, fh.fail_at, type(err).__name__)
        elif k == "line":
            other = w.build_machine(plan["machine"])
            with LineTracer() as t:
                read(TextReader(text), other)
            must = LINE_EXC[op[2]]
            with LineTracer(1 + int(op[1] * t.n), must, sim) as t2:
                try:
                    eq = read(TextReader(text), tok)
                except BaseException as e:
                    err = e
            if t2.fired:
                sim.check(isinstance(err, must), "interrupt-swallowed", "interrupted in %s: read gave %r" % (t2.where, err))
            sim.state(k, t2.where, type(err).__name__)
        elif k == "machine":
            # A field or current query of the machine fails
            other = w.build_machine(plan["machine"])
            n = Calls(other)
            read(TextReader(text), other)
            c = Calls(tok, 1 + int(op[1] * n.n), MACHINE_EXC[op[2]], sim)
            try:
                eq = read(TextReader(text), tok)
            except BaseException as e:
                err = e
            finally:
                c.remove()
            if c.fired is not None:
                sim.check(err is c.fired, "failure-swallowed", "%s in %s call %d: read gave %r" % (op[2], c.where, c.at, err))
            sim.state(k, c.where, op[2])
        elif k == "hopeless":
            # No time to converge
            sim.fault("not-converging")
            try:
                eq = read(TextReader(text), tok, rtol=1e-15, maxits=op[1], blend=op[2])
            except BaseException as e:
                err = e
            sim.check(isinstance(err, Exception), "unconverged-read-returned", "read gave %r after %d iterations at a tolerance of 1e-15" % (err or eq, op[1]))
            sim.state(k, type(err).__name__)
        elif k == "read":
            eq = read(TextReader(text, sim=sim), tok)
            last = good(eq)
            sim.state(k)
        elif k == "final":
            f = op[1]
            kw = {}
            if f["opt"] == "bounds":
                b = f["bound"]
                n = len(tok.controlCurrents())
                # The user loses patience with a bounded fit after a while
                calls, real = [0], tok.setControlCurrents

                def patient(currents):
                    calls[0] += 1
                    if calls[0] > 4000:
                        raise KeyboardInterrupt()
                    return real(currents)

                tok.setControlCurrents = patient
                kw["current_bounds"] = [(-b, b)] * n
                try:
                    eq = read(TextReader(text, sim=sim), tok, **kw)
                except KeyboardInterrupt:
                    sim.fault("interrupt-of-bounded-fit")
                except (RuntimeError, ValueError, AttributeError, TypeError, AssertionError) as e:
                    sim.event("bounded fit failed", type(e).__name__)
                    sim.probe("bounded-fit-failed")
                else:
                    sim.probe("bounded-fit")
                cur = np.array(tok.controlCurrents(), dtype=float)
                if eq is not None:
                    sim.check(np.all(np.abs(cur) <= b * (1 + 1e-9)), "current-bounds-exceeded", lambda: "%s beyond %g" % (cur, b))
                d = w.difference(fixed0, fixed(tok))
                sim.check(d is None, "uncontrolled-coil-changed", d)
                continue
            for key in ("blend", "ntheta", "rtol"):
                if key in f:
                    kw[key] = f[key]
            if f["opt"] == "blend":
                kw["maxits"] = 100
            if f["opt"] == "fit_sol":
                kw["fit_sol"] = True
            if f["opt"] == "domain":
                kw["domain"] = f["domain"]
            # An undisturbed read of the same file, onto a fresh machine
            fresh = w.build_machine(plan["machine"])
            try:
                ref = read(TextReader(text), fresh, **kw)
            except (RuntimeError, ValueError, AttributeError, TypeError) as e:
                sim.probe("undisturbed-read-failed")
                sim.skip("undisturbed read: %s" % type(e).__name__)
            eq = read(TextReader(text, sim=sim), tok, **kw)
            if f["opt"] in ("domain",) or f.get("rtol") == 1e-2:
                a, b = summary(eq, src), summary(ref, src)
                compare(sim, a, b, core, "reread", 1.0)
                d = w.difference(fixed0, fixed(tok))
                sim.check(d is None, "uncontrolled-coil-changed", d)
                p03.close(sim, [eq.R[0, 0], eq.R[-1, 0], eq.Z[0, 0], eq.Z[0, -1]], f.get("domain") or [src.Rmin, src.Rmax, src.Zmin, src.Zmax], "read-domain", 1e-7)
                compare(sim, a, want, core, "read", 3.0)
            else:
                a = good(eq)
                compare(sim, a, summary(ref, src), core, "reread", 0.5)
            sim.event("read", "%.3g" % (a["Ip"] / want["Ip"]))
            sim.state(k, f["opt"], src.R.shape)
