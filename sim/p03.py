"""P03: exported G-EQDSK and DivGeo files"""
import io
import re
import warnings

import numpy as np

from . import world as w
from .disk import TextWriter
from .sched import LineTracer

RUNS = {"quick": 120, "thorough": 4000}
SHRINK = ["ops", "machine.coils"]
RULE = "A plan is a solved equilibrium (diverted or limited, any grid, wall, profiles) and a history of exports (G-EQDSK, DivGeo), " \
       "failing exports (ENOSPC/EIO/interrupt at a seeded write, torn text, interrupts at seeded lines), further solve steps and current changes."
STATE_MEASURE = "distinct (operation, format, write number or interrupted function, outcome) signatures"
REAL = ["freegs (all of it)", "freeqdsk", "numpy/scipy"]
STUB = ["output file (simulated text file)"]
ASSUMPTIONS = ["the oracle parses files with freeqdsk (G-EQDSK) and a small DivGeo parser; values compared to the precision of the format",
               "equilibria with at least one X-point in the domain (without one exporting raises ValueError)"]


def gen(rng, tier):
    plan = w.gen_solved(rng)
    if rng.flip(0.7):
        plan["grid"]["nx"] = 17  # exporting costs nx flux surfaces
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.choice(["export", "fail", "fail", "line", "step", "cur", "nudge", "r0", "oxp"])
        if k in ("export", "oxp"):
            ops.append([k, rng.choice(["g", "g", "d"])])
        elif k == "fail":
            ops.append([k, rng.choice(["g", "g", "d"]), rng.uni(0, 1), rng.choice(["ENOSPC", "EIO", "INT"]), rng.flip(0.3), rng.choice([0.0, 0.5])])
        elif k == "line":
            ops.append([k, rng.choice(["g", "g", "d"]), rng.uni(0, 1), rng.choice(["INT", "MEM"])])
        elif k == "step":
            ops.append([k, rng.flip(0.5)])
        elif k == "cur":
            ops.append([k, rng.randrange(6), rng.uni(0.97, 1.03)])
        elif k == "nudge":
            ops.append([k, rng.randrange(6), rng.uni(0.995, 1.005)])
        else:
            ops.append([k, rng.choice([0.8, 1.2, 2.5])])
    plan["ops"] = ops + [["export", rng.choice(["g", "g", "d"])]]
    plan["label"] = rng.choice([None, "FREEGS", "shot 12345"])
    return plan


def export(eq, fh, fmt, label=None, oxpoints=None):
    from freegs import divgeo, geqdsk

    with warnings.catch_warnings(), w.quiet():
        warnings.simplefilter("ignore")
        if fmt == "g":
            geqdsk.write(eq, fh, label=label, oxpoints=oxpoints)
        else:
            divgeo.write(eq, fh, oxpoints=oxpoints)


def close(sim, a, b, kind, tol=2e-8, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    sim.check(a.shape == b.shape, kind, "shape %s != %s" % (a.shape, b.shape))
    s = scale if scale is not None else max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-30) if a.size else 1.0
    err = np.max(np.abs(a - b)) if a.size else 0.0
    sim.check(err <= tol * s, kind, lambda: "differs by %g of %g" % (err, s))


def axis_point(eq):
    return eq.magneticAxis()


def inside(poly_r, poly_z, r, z):
    n, c = len(poly_r), False
    for i in range(n):
        j = i - 1
        if (poly_z[i] > z) != (poly_z[j] > z) and r < (poly_r[j] - poly_r[i]) * (z - poly_z[i]) / (poly_z[j] - poly_z[i]) + poly_r[i]:
            c = not c
    return c


def flux_to_axis(eq):
    """Flux relative to the axis, from the equilibrium's public interface only"""
    axis = axis_point(eq)
    return axis, eq.psi() - axis[2], eq.psi_bndry - axis[2]


def judge_geqdsk(sim, text, eq):
    from freeqdsk import geqdsk as fq

    d = fq.read(io.StringIO(text), cocos=1)

    def get(name):
        try:
            return d[name]
        except (KeyError, AttributeError):
            return None

    nx, ny = eq.R.shape
    sim.check(int(get("nx")) == nx and int(get("ny")) == ny, "file-grid-size", "%s x %s" % (get("nx"), get("ny")))
    rmin, rmax, zmin, zmax = eq.R[0, 0], eq.R[-1, 0], eq.Z[0, 0], eq.Z[0, -1]
    close(sim, [get("rleft"), get("rleft") + get("rdim"), get("zmid") - get("zdim") / 2, get("zmid") + get("zdim") / 2],
          [rmin, rmax, zmin, zmax], "file-domain", 3e-8)
    close(sim, [get("rcentr")], [eq.tokamak.R0], "file-reference-radius")
    close(sim, [get("bcentr") * get("rcentr")], [eq.fvac()], "file-vacuum-field", 3e-8)
    close(sim, [get("cpasma")], [eq.plasmaCurrent()], "file-plasma-current")
    axis, psi, bndry = flux_to_axis(eq)
    close(sim, [get("rmagx"), get("zmagx")], axis[:2], "file-axis", 1e-7)
    scale = np.max(np.abs(psi))
    close(sim, np.asarray(get("psi")) - get("simagx"), psi, "file-flux", 1e-7, scale)
    close(sim, [get("sibdry") - get("simagx")], [bndry], "file-boundary-flux", 1e-7, scale)
    x = np.linspace(0.0, 1.0, nx)
    close(sim, get("fpol"), eq.fpol(x), "file-fpol")
    close(sim, get("pres"), eq.pressure(x), "file-pressure")
    close(sim, get("ffprime"), eq.ffprime(x), "file-ffprime")
    close(sim, get("pprime"), eq.pprime(x), "file-pprime")
    q = np.asarray(get("qpsi"))
    sim.check(q.shape == (nx,), "file-q", "shape %s" % (q.shape,))
    close(sim, q[1:], eq.q(x[1:]), "file-q", 1e-7)
    sim.check(np.isfinite(q[0]) and abs(q[0] - q[1]) <= 0.3 * abs(q[1]), "file-q", "axis q %r, next %r" % (q[0], q[1]))
    wall = eq.tokamak.wall
    if wall is not None:
        close(sim, get("rlim"), wall.R, "file-wall")
        close(sim, get("zlim"), wall.Z, "file-wall", 2e-8, 1.0)
    else:
        sim.check(get("rlim") is None or len(get("rlim")) == 0, "file-wall", "wall in file of a machine without one")
    rb, zb = np.asarray(get("rbdry")), np.asarray(get("zbdry"))
    sim.check(len(rb) > 20 and len(rb) == len(zb), "file-boundary", "%d points" % len(rb))
    sim.check(rb[0] == rb[-1] and zb[0] == zb[-1], "file-boundary-open", "boundary is not closed")
    far = np.hypot(rb - axis[0], zb - axis[1]) > 1e-4  # points of rays through an X-point may be missing
    sim.check(np.sum(far) > 0.9 * len(far) and inside(rb[far], zb[far], *axis[:2]), "file-boundary", "axis is not inside the boundary")
    # On the boundary flux surface (points are found to finite accuracy; near X-points the flux is flat)
    pn = (eq.psiRZ(rb, zb) - axis[2]) / bndry
    sim.check(np.median(np.abs(pn - 1)) < 0.02, "file-boundary-flux-surface", lambda: "normalised flux on the boundary %g .. %g" % (pn.min(), pn.max()))
    return d


def judge_divgeo(sim, text, eq):
    nx, ny = eq.R.shape

    def field(name):
        m = re.search(r"^\s*%s\s*=\s*([-+0-9.Ee]+)" % name, text, re.M)
        sim.check(m is not None, "divgeo-" + name, "missing")
        return float(m.group(1))

    sim.check(field("jm") == nx and field("km") == ny, "divgeo-grid-size", "")
    close(sim, [field("rtf")], [eq.tokamak.R0], "divgeo-reference-radius")
    close(sim, [field("btf") * field("rtf")], [eq.fvac()], "divgeo-vacuum-field", 3e-8)

    def numbers(after, before):
        part = text[text.index(after) + len(after):]
        if before:
            part = part[: part.index(before)]
        return np.array([float(v) for v in re.findall(r"[-+]?\d+\.\d+(?:[Ee][-+]\d+)?", part)])

    close(sim, numbers("r(1:jm);", "z(1:km);"), eq.R[:, 0], "divgeo-r", 3e-8)
    close(sim, numbers("z(1:km);", "((psi"), eq.Z[0, :], "divgeo-z", 3e-8)
    psi = numbers("k=1,km)", None)
    sim.check(psi.size == nx * ny, "divgeo-flux", "%d values" % psi.size)
    axis, flux, bndry = flux_to_axis(eq)
    scale = np.max(np.abs(flux))
    # psi(j,k) with j (R) varying fastest
    close(sim, psi.reshape((ny, nx)).T, flux - bndry, "divgeo-flux", 1e-7, scale)
    close(sim, [field("psib")], [bndry], "divgeo-boundary-flux", 1e-7, scale)


def judge(sim, text, eq, fmt):
    (judge_geqdsk if fmt == "g" else judge_divgeo)(sim, text, eq)


def body(text):
    """File content without the first line (which carries the date)"""
    return text.split("\n", 1)[1]


def run(plan, sim):
    from freegs import critical

    W = w.solved(plan, sim)
    eq = W.eq
    done = {}  # format -> text of the last export, while nothing changed

    def unchanged(before, what):
        d = w.difference(before, w.observe(eq))
        sim.check(d is None, "export-changes-equilibrium", "%s: %s" % (what, d))

    for op in plan["ops"]:
        sim.event("op", *op)
        k = op[0]
        before = w.observe(eq)
        if not w.plasma_ok(eq):
            sim.event("no plasma with an X-point left, which exporting needs")
            break
        if k in ("export", "oxp"):
            fh = TextWriter(sim=sim)
            ox = critical.find_critical(eq.R, eq.Z, eq.psi()) if k == "oxp" else None
            export(eq, fh, op[1], plan["label"], ox)
            text = fh.getvalue()
            unchanged(before, k)
            judge(sim, text, eq, op[1])
            if op[1] in done:
                sim.check(body(text) == body(done[op[1]]), "export-not-repeatable", "a second export of the same equilibrium differs")
            done[op[1]] = text
            sim.event("exported", fh.n, len(text))
            sim.state(k, op[1], fh.n, eq.is_limited)
        elif k in ("fail", "line"):
            probe = TextWriter()
            t = LineTracer()
            if k == "line":
                with t:
                    export(eq, probe, op[1], plan["label"])
            else:
                export(eq, probe, op[1], plan["label"])
            if op[1] not in done:
                done[op[1]] = probe.getvalue()
            err = None
            if k == "fail":
                fh = TextWriter(fail_at=1 + int(op[2] * probe.n), kind=op[3], sticky=op[4], partial=op[5], sim=sim)
                want = KeyboardInterrupt if op[3] == "INT" else OSError
                try:
                    export(eq, fh, op[1], plan["label"])
                except BaseException as e:
                    err = e
                fired, where = fh.fired, fh.fail_at
            else:
                want = KeyboardInterrupt if op[3] == "INT" else MemoryError
                fh = TextWriter(sim=sim)
                with LineTracer(1 + int(op[2] * t.n), want, sim) as t2:
                    try:
                        export(eq, fh, op[1], plan["label"])
                    except BaseException as e:
                        err = e
                fired, where = t2.fired, t2.where
            if fired:
                sim.check(isinstance(err, want), "export-error-swallowed", "%s at %s: export gave %r" % (op[3], where, err))
            unchanged(before, "failed export (%s)" % where)
            sim.state(k, op[1], where, type(err).__name__)
        elif k == "step":
            done = {}
            with w.quiet():
                try:
                    if op[1]:
                        W.constrain(eq)
                    eq.solve(W.profiles)
                except ValueError as e:
                    sim.event("step failed", str(e)[:40])
                    break
        elif k == "cur":
            # A change of currents counts once the equilibrium has been solved again
            done = {}
            c = eq.tokamak.coils[op[1] % len(eq.tokamak.coils)][1]
            c.current = c.current * op[2]
            with w.quiet():
                try:
                    eq.solve(W.profiles)
                except ValueError as e:
                    sim.event("step failed", str(e)[:40])
                    break
        elif k == "nudge":
            # A small change, not solved again
            done = {}
            c = eq.tokamak.coils[op[1] % len(eq.tokamak.coils)][1]
            c.current = c.current * op[2]
        elif k == "r0":
            done = {}
            eq.tokamak.R0 = op[1]
