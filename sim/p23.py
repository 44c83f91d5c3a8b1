"""P23: global diagnostics describe the present equilibrium after any history"""
import copy
import warnings

import numpy as np
from scipy.integrate import romb, simpson, trapezoid
from scipy.interpolate import RectBivariateSpline

from . import queries as qs
from . import world as w
from .sched import LINE_EXC, LineTracer

RUNS = {"quick": 120, "thorough": 4000}
SHRINK = ["ops"]
RULE = "A plan is a solved equilibrium (diverted or limited, any machine, grid, profiles, sign of the plasma current) and a history of solves, changes of currents, of " \
       "profiles and of the limited check, failed and interrupted solves, diagnostics interrupted at a seeded line, and copies; after every solve which succeeds all " \
       "diagnostics are compared with a reference calculated from the flux map and the profiles alone."
STATE_MEASURE = "distinct (operation, grid, profiles, limited, sign of the current, failures so far, group of diagnostics) signatures"
TIME_UNIT = "operations"
REAL = ["freegs (solver, machine, profiles, critical points, all diagnostics)", "numpy/scipy"]
STUB = ["reference diagnostics: own ray tracing of flux surfaces and own quadratures"]
ASSUMPTIONS = ["plasmas whose boundary closes inside the domain, with an X-point", "coils are not moved after the equilibrium is created",
               "volume integrals are compared with the usual rules over the core mask of the equilibrium, and loosely (grids of 17 to 33 points) with the accurate integral",
               "shape parameters within the resolution of 360 rays"]

QUERIES = [n for n in qs.SIMPLE if n not in ("plasmaCurrent", "fvac")] + ["q", "Btor", "Btot", "pressure", "fpol"]


def gen(rng, tier):
    plan = w.gen_solved(rng)
    if rng.flip(0.35) and plan["profiles"]["k"] != "func":
        plan["profiles"]["Ip"] = -plan["profiles"]["Ip"]
    if rng.flip(0.3):
        plan["profiles"]["fvac"] = -plan["profiles"]["fvac"]
    coils = [label for label, c in plan["machine"]["coils"]]
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.choice(["linear", "control", "current", "picard", "fail", "line", "ask", "ask", "profiles", "profiles", "limited", "copy"])
        if k == "current":
            ops.append([k, rng.choice(coils), rng.uni(-0.04, 0.04)])
        elif k == "fail":
            ops.append([k, rng.choice(["boundary", "solver"])])
        elif k == "line":
            ops.append([k, rng.uni(0, 1)])
        elif k == "ask":
            ops.append([k, rng.choice(QUERIES), rng.choice([None, rng.uni(0, 1, 6)]), rng.choice(sorted(LINE_EXC))])
        elif k == "profiles":
            s = dict(plan["profiles"])
            if "Ip" in s:
                s["Ip"] = float(round(s["Ip"] * rng.uniform(0.8, 1.2)))
            for f in ("paxis", "betap", "fvac"):
                if f in s:
                    s[f] = round(s[f] * rng.uniform(0.7, 1.3), 4)
            ops.append([k, s])
        else:
            ops.append([k])
    plan["ops"] = ops
    plan["npoints"] = rng.choice([360, 360, 180, 500])
    return plan


def rays(S, r0, z0, eq, level, n=720):
    """Distance from the axis of the first crossing of a level of normalised flux, along n rays"""
    th = (np.arange(n) + 0.37) * 2 * np.pi / n
    dr, dz = np.sin(th), np.cos(th)
    with np.errstate(divide="ignore"):
        lr = np.where(dr > 0, (eq.Rmax - r0) / dr, np.where(dr < 0, (eq.Rmin - r0) / dr, np.inf))
        lz = np.where(dz > 0, (eq.Zmax - z0) / dz, np.where(dz < 0, (eq.Zmin - z0) / dz, np.inf))
    length = np.minimum(lr, lz)
    f = np.linspace(0.0, 1.0, 400)
    pn = S(r0 + np.outer(dr * length, f), z0 + np.outer(dz * length, f), grid=False)
    over = pn > level
    some = np.any(over[:, 1:], axis=1)
    if np.mean(some) < 0.97 or np.any(over[:, 0]):
        return None
    i = np.maximum(np.argmax(over, axis=1), 1)
    lo, hi = f[i - 1] * length, f[i] * length
    for _ in range(40):
        mid = 0.5 * (lo + hi)
        up = S(r0 + mid * dr, z0 + mid * dz, grid=False) > level
        lo, hi = np.where(up, lo, mid), np.where(up, mid, hi)
    d = 0.5 * (lo + hi)
    # Rays which pass through an X-point without crossing the level are seen as far too long
    return th, dr, dz, np.where(some, d, length)


class Reference:
    """Everything from the flux on the grid, the boundary flux and the profile functions"""

    def __init__(self, eq, prof_spec, prof):
        R, Z = eq.R, eq.Z
        self.eq = eq
        self.psi = np.array(eq.plasma_psi) + np.asarray(eq.tokamak.psi(R, Z))
        raw = RectBivariateSpline(R[:, 0], Z[0, :], self.psi)
        self.raw = raw
        # Axis: extremum of the flux, by Newton's method from the one given
        r, z = eq.Rmagnetic(), eq.Zmagnetic()
        for _ in range(30):
            g = np.array([raw(r, z, dx=1)[0, 0], raw(r, z, dy=1)[0, 0]])
            H = np.array([[raw(r, z, dx=2)[0, 0], raw(r, z, dx=1, dy=1)[0, 0]], [raw(r, z, dx=1, dy=1)[0, 0], raw(r, z, dy=2)[0, 0]]])
            step = np.linalg.solve(H, g)
            r, z = r - step[0], z - step[1]
            if np.hypot(*step) < 1e-12:
                break
        self.r0, self.z0 = r, z
        self.axis = raw(r, z)[0, 0]
        self.bndry = eq.psi_bndry
        self.S = RectBivariateSpline(R[:, 0], Z[0, :], (self.psi - self.axis) / (self.bndry - self.axis))
        self.edge = rays(self.S, r, z, eq, 1.0)

    def region(self, f, nr=60):
        """Accurate integral of f(R, Z) over the confined region"""
        th, dr, dz, d = self.edge
        x, wx = np.polynomial.legendre.leggauss(nr)
        x, wx = 0.5 * (x + 1), 0.5 * wx
        rad = np.outer(d, x)
        v = f(self.r0 + rad * dr[:, None], self.z0 + rad * dz[:, None]) * rad
        return np.sum(v * wx[None, :] * d[:, None]) * 2 * np.pi / len(th)

    def q(self, level, f):
        s = rays(self.S, self.r0, self.z0, self.eq, level, 400)
        if s is None:
            return None
        th, dr, dz, d = s
        R, Z = self.r0 + d * dr, self.z0 + d * dz
        gr, gz = self.raw(R, Z, dx=1, grid=False), self.raw(R, Z, dy=1, grid=False)
        # dl = d * dtheta / cos(angle between the ray and the normal), Bpol = |grad psi| / R
        along = np.abs(gr * dr + gz * dz)
        return f / (2 * np.pi) * np.sum(d / (R * along)) * (2 * np.pi / len(th))


def usual(f, dR, dZ):
    return [romb(romb(f)) * dR * dZ, trapezoid(trapezoid(f)) * dR * dZ, simpson(simpson(f)) * dR * dZ, np.sum(f) * dR * dZ]


DEV = {}


def dev(name, x):
    DEV[name] = max(DEV.get(name, 0.0), float(x))


def near(sim, name, got, want, tol, scale=None):
    """Difference within tol of the scale (of the reference value unless given)"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    sim.check(got.shape == want.shape, "diagnostic-" + name, lambda: "%s has shape %r" % (name, got.shape))
    s = np.abs(want) if scale is None else scale
    err = np.max(np.abs(got - want) / np.maximum(s, 1e-300))
    dev(name, err)
    sim.check(err <= tol, "diagnostic-" + name, lambda: "%s is %s, but %s by the flux and profiles" % (name, np.ravel(got)[:4], np.ravel(want)[:4]))


def judge(sim, eq, prof, spec, n, parts=("shape", "volume")):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return _judge(sim, eq, prof, spec, n, parts)


def _judge(sim, eq, prof, spec, n, parts):
    R, Z = eq.R, eq.Z
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    ref = Reference(eq, spec, prof)
    if ref.edge is None or eq.mask is None:
        sim.probe("open-boundary")
        return False
    th, dr, dz, d = ref.edge
    Rb, Zb = ref.r0 + d * dr, ref.z0 + d * dz
    if np.sum(np.array(eq.mask)) < 30:
        sim.probe("vanishing-plasma")
        return False
    # Rays which slip through an X-point: the shape is not resolved by rays then
    resolved = np.max(np.abs(np.diff(np.append(d, d[0])))) <= 0.05
    if not resolved:
        sim.probe("jump-in-boundary")
        d = np.min([np.roll(d, k) for k in range(-4, 5)], axis=0)
        if np.max(np.abs(np.diff(np.append(d, d[0])))) > 0.05:
            sim.probe("open-boundary")
            return False
        Rb, Zb = ref.r0 + d * dr, ref.z0 + d * dz
    span = ref.bndry - ref.axis
    near(sim, "axis", [eq.Rmagnetic(), eq.Zmagnetic()], [ref.r0, ref.z0], 5e-4, 1.0)
    near(sim, "axis-flux", eq.psi_axis, ref.axis, 1e-5, abs(span))

    if resolved and "shape" in parts:
        shape(sim, eq, ref, n, dR)
    if "volume" not in parts:
        return True

    # ---- volume integrals
    rmin, rmax, zmin, zmax = Rb.min(), Rb.max(), Zb.min(), Zb.max()
    mask = np.array(eq.mask)
    inside = ref.S(R, Z, grid=False) < 1.0
    ang = np.mod(np.arctan2(R - ref.r0, Z - ref.z0), 2 * np.pi)
    dist = np.hypot(R - ref.r0, Z - ref.z0)
    edge = np.interp(ang, np.concatenate([th - 2 * np.pi, th, th + 2 * np.pi]), np.tile(d, 3))
    cell = 1.6 * max(dR, dZ)
    wrong = ((mask > 0.5) & (dist > edge + cell)) | ((mask < 0.5) & (dist < edge - 0.02) & inside)
    for rx, zx in xpoints(eq, ref):
        # Next to X-points the code also takes points beyond them
        wrong &= ~((np.abs(R - rx) < 1.6 * dR) & (np.abs(Z - zx) < 1.6 * dZ))
    sim.check(not np.any(wrong), "diagnostic-core", lambda: "core mask is wrong at %r" % ([(float(R[p]), float(Z[p])) for p in zip(*np.nonzero(wrong))][:3],))
    # The profiles of the step which was solved
    pspan = prof.psi_bndry - prof.psi_axis if hasattr(prof, "psi_bndry") and hasattr(prof, "psi_axis") else span
    p1 = lambda x: pressure(spec, prof, x, pspan)  # noqa: E731
    f1 = lambda x: fpol(spec, prof, x, pspan)  # noqa: E731
    xs = np.array([0.0, 0.15, 0.5, 0.85, 1.0])
    near(sim, "pressure", eq.pressure(xs), p1(xs), 1e-3, abs(p1(0.0)))
    near(sim, "pressure-point", eq.pressure(0.3), p1(0.3), 1e-3, abs(p1(0.0)))
    near(sim, "fpol", eq.fpol(xs), f1(xs), 1e-3, abs(spec["fvac"]))
    near(sim, "fpol-point", eq.fpol(0.3), f1(0.3), 1e-3, abs(spec["fvac"]))
    near(sim, "fvac", eq.fvac(), spec["fvac"], 1e-12)
    pn = np.clip(ref.S(R, Z, grid=False), 0.0, None)
    P = np.where(mask > 0.5, p1(np.minimum(pn, 1.0)), 0.0)
    B2 = eq.Br(R, Z) ** 2 + eq.Bz(R, Z) ** 2
    F = np.where(mask > 0.5, f1(np.minimum(pn, 1.0)), spec["fvac"])
    T2 = (F / R) ** 2
    dV = 2 * np.pi * R * mask
    Ip = eq.plasmaCurrent()
    vol, pint, bint, tint, parea = usual(dV, dR, dZ), usual(P * dV, dR, dZ), usual(B2 * dV, dR, dZ), usual(T2 * dV, dR, dZ), usual(P, dR, dZ)

    def close(name, got, wants, tol=3e-5):
        err = [abs(got - x) / abs(x) for x in wants]
        dev(name, min(err))
        sim.check(min(err) <= tol, "diagnostic-" + name, lambda: "%s is %r, but %r by the flux and profiles" % (name, got, wants))

    mu0 = w.MU0
    close("plasmaVolume", eq.plasmaVolume(), vol)
    close("w_th", eq.w_th(), [1.5 * x for x in pint])
    close("pressure_ave", eq.pressure_ave(), [x / v for x, v in zip(pint, vol)])
    close("poloidalBeta", eq.poloidalBeta(), [2 * mu0 * x / b for x, b in zip(pint, bint)])
    close("poloidalBeta2", eq.poloidalBeta2(), [8 * np.pi / mu0 * x / Ip ** 2 for x in parea])
    close("toroidalBeta", eq.toroidalBeta(), [2 * mu0 * x / b for x, b in zip(pint, tint)])
    close("totalBeta", eq.totalBeta(), [2 * mu0 * x / (b + c) for x, b, c in zip(pint, bint, tint)])
    rg, a = eq.Rgeometric(npoints=n), eq.minorRadius(npoints=n)
    kap = eq.elongation(npoints=n)
    keff = [v / (2 * np.pi ** 2 * rg * a * a) for v in vol]
    close("effectiveElongation", eq.effectiveElongation(npoints=n), keff)
    li = [2 * b / (mu0 * Ip) ** 2 for b in bint]
    close("internalInductance", eq.internalInductance(npoints=n), [x / rg for x in li])
    close("internalInductance3", eq.internalInductance3(npoints=n), [x / rg for x in li])
    close("internalInductance2", eq.internalInductance2(), [x / eq.Rmagnetic() for x in li])
    close("internalInductance1", eq.internalInductance1(npoints=n), [x / rg * (1 + kap ** 2) / (2 * k) for x, k in zip(li, keff)])
    r3, a3, k3, z3 = eq.Rgeometric(), eq.minorRadius(), eq.elongation(), eq.Zgeometric()
    bt = f1(ref.S(r3, z3)[0, 0]) / r3
    close("betaN", eq.betaN(), [1e8 * 2 * mu0 * x / b * a3 * bt / Ip for x, b in zip(pint, tint)], 0.01 + 0.3 * abs(bt * r3 - spec["fvac"]) / abs(bt * r3))
    close("poloidalBeta3", eq.poloidalBeta3(), [4 * x / (mu0 * Ip ** 2 * r3) for x in pint])
    close("qcyl", eq.qcyl(), [0.5 * (1 + k3 ** 2) * 2 * np.pi * a3 * (a3 / r3) * (spec["fvac"] / r3) / (mu0 * Ip)], 1e-6)
    if resolved:
        near(sim, "volume-exact", eq.plasmaVolume(), ref.region(lambda r, z: 2 * np.pi * r), 0.45)
    # ---- toroidal field: inside, and outside
    pts = [(ref.r0, ref.z0), (ref.r0 + 0.3 * (rmax - ref.r0), ref.z0), (ref.r0, ref.z0 + 0.3 * (zmax - ref.z0))]
    for r, z in pts:
        # Between grid points the core mask is interpolated
        f = f1(ref.S(r, z)[0, 0])
        near(sim, "Btor", eq.Btor(r, z), f / r, 2e-3 + 0.3 * abs(f - spec["fvac"]) / abs(f))
        b = np.sqrt(float(eq.Btor(r, z)) ** 2 + float(eq.Br(r, z)) ** 2 + float(eq.Bz(r, z)) ** 2)
        near(sim, "Btot", eq.Btot(r, z), b, 1e-9)
    out = (dist > edge + 4 * max(dR, dZ))
    if np.any(out):
        near(sim, "Btor-outside", eq.Btor(R, Z)[out], spec["fvac"] / R[out], 0.02)
    # ---- safety factor
    lv = np.array([0.2, 0.5, 0.8])
    want = [ref.q(x, f1(x)) for x in lv]
    if all(x is not None for x in want):
        near(sim, "q", eq.q(lv), want, 0.01)
        near(sim, "q-point", eq.q(0.5), want[1], 0.01)
        ps, qs_ = eq.q(npsi=8)
        near(sim, "q-grid", ps, np.arange(1, 9) / 9.0, 1e-9)
        mid = [ref.q(x, f1(x)) for x in ps[1:7]]
        if all(x is not None for x in mid):
            near(sim, "q-profile", qs_[1:7], mid, 0.01)
    if eq.tokamak.wall is not None and resolved:
        hit = touches(np.array(eq.tokamak.wall.R, float), np.array(eq.tokamak.wall.Z, float), Rb, Zb)
        if hit is not None:
            sim.check(bool(eq.intersectsWall()) == hit, "diagnostic-intersectsWall", lambda: "intersectsWall() is %r, but the boundary %s the wall" % (eq.intersectsWall(), "crosses" if hit else "is clear of"))
            sim.probe("wall-crossed" if hit else "wall-clear")
    return True


def shape(sim, eq, ref, n, dR):
    """Shape parameters"""
    Z = eq.Z
    th, dr, dz, d = ref.edge
    Rb, Zb = ref.r0 + d * dr, ref.z0 + d * dz
    rmin, rmax, zmin, zmax = Rb.min(), Rb.max(), Zb.min(), Zb.max()
    a, rg = 0.5 * (rmax - rmin), 0.5 * (rmax + rmin)
    h = 2 * np.pi / n * np.max(d)
    sep = eq.separatrix(npoints=n)
    sim.check(sep.shape == (n, 2), "diagnostic-separatrix", lambda: "shape %r" % (sep.shape,))
    pn = ref.S(sep[:, 0], sep[:, 1], grid=False)
    # A ray right through an X-point finds no boundary, and gives the axis
    lost = pn < 0.01
    if np.any(lost) and np.sum(lost) <= 2:
        sim.probe("ray-through-xpoint")
        sep, pn = sep[~lost], pn[~lost]
    near(sim, "separatrix", pn, np.ones(len(sep)), 3e-4)
    ang = np.arctan2(sep[:, 0] - ref.r0, sep[:, 1] - ref.z0)
    gaps = np.diff(np.sort(np.mod(ang, 2 * np.pi)))
    near(sim, "separatrix-angles", gaps[gaps < 3 * np.pi / n] if len(sep) < n else gaps, np.full(n - 1 if len(sep) == n else np.sum(gaps < 3 * np.pi / n), 2 * np.pi / n), 0.3)
    own = np.interp(np.mod(ang, 2 * np.pi), np.concatenate([th - 2 * np.pi, th, th + 2 * np.pi]), np.tile(d, 3))
    near(sim, "separatrix-points", np.hypot(sep[:, 0] - ref.r0, sep[:, 1] - ref.z0), own, 0.02, a)
    near(sim, "Rgeometric", eq.Rgeometric(npoints=n), rg, 0.1 * h / a, a)
    near(sim, "minorRadius", eq.minorRadius(npoints=n), a, 0.1 * h / a, a)
    near(sim, "aspectRatio", eq.aspectRatio(npoints=n), rg / a, 0.01)
    near(sim, "inverseAspectRatio", eq.inverseAspectRatio(npoints=n), a / rg, 0.01)
    i1, i3, i2, i4 = np.argmax(Rb), np.argmin(Rb), np.argmax(Zb), np.argmin(Zb)
    zg = 0.5 * (Zb[i1] + Zb[i3])
    near(sim, "Zgeometric", eq.Zgeometric(npoints=n), zg, 0.03, a)
    near(sim, "geometricAxis", eq.geometricAxis(npoints=n), [rg, zg], 0.03, a)
    near(sim, "elongation", eq.elongation(npoints=n), 0.5 * (zmax - zmin) / a, 2 * h / a)
    near(sim, "elongationUpper", eq.elongationUpper(npoints=n), (zmax - zg) / a, 0.04)
    near(sim, "elongationLower", eq.elongationLower(npoints=n), (zg - zmin) / a, 0.04)
    near(sim, "triangularityUpper", eq.triangularityUpper(npoints=n), (rg - Rb[i2]) / a, 0.1, 1.0)
    near(sim, "triangularityLower", eq.triangularityLower(npoints=n), (rg - Rb[i4]) / a, 0.1, 1.0)
    near(sim, "triangularity", eq.triangularity(npoints=n), (rg - 0.5 * (Rb[i2] + Rb[i4])) / a, 0.1, 1.0)
    near(sim, "shafranovShift", eq.shafranovShift(npoints=n), [ref.r0 - rg, ref.z0 - zg], 0.03, a)
    # ---- inner and outer radius at a height: linear interpolation between grid points
    for zq in (0.0, 0.5 * zmax, 0.5 * zmin):
        j = np.argmin(np.abs(Z[0, :] - zq))
        zz = Z[0, j]
        if not zmin + 0.1 * a < zz < zmax - 0.1 * a:
            continue
        line = ref.S(np.linspace(eq.Rmin, eq.Rmax, 4001), np.full(4001, zz), grid=False)
        rr = np.linspace(eq.Rmin, eq.Rmax, 4001)
        k = np.argmin(np.abs(rr - ref.r0))
        if line[k] > 0.9:
            continue
        left, right = np.nonzero(line[:k] > 1)[0], np.nonzero(line[k:] > 1)[0]
        if len(left) and len(right):
            near(sim, "innerOuterSeparatrix", eq.innerOuterSeparatrix(zq), [rr[left[-1]], rr[k + right[0]]], 0.35 * dR / a, a)


def xpoints(eq, ref):
    from freegs import critical

    return [x[:2] for x in critical.find_critical(eq.R, eq.Z, ref.psi)[1]]


def touches(wr, wz, Rb, Zb, margin=0.02):
    """True / False if the closed boundary clearly crosses / is clearly inside the closed wall, None if unclear"""
    import shapely.geometry as sg

    wall = sg.Polygon(list(zip(wr, wz)))
    b = sg.Polygon(list(zip(Rb, Zb)))
    if not wall.is_valid or not b.is_valid:
        return None
    if b.buffer(margin).within(wall):
        return False
    ring = sg.LineString(list(zip(wr, wz)))  # the closing segment may be missing
    if ring.crosses(b.buffer(-margin)) or ring.intersects(b.buffer(-margin)):
        return True
    return None


def shape_integral(spec, x):
    """Integral of the normalised shape from x to 1"""
    t, wt = np.polynomial.legendre.leggauss(40)
    t, wt = 0.5 * (t + 1), 0.5 * wt
    x = np.asarray(x, float)
    x = np.minimum(x, 1.0)
    u = x[..., None] + (1 - x[..., None]) * t
    u0 = np.clip(u, 0.0, 1.0)
    s = (1 - u0) ** spec["e"] if spec["k"] == "func" else (1 - u0 ** spec["am"]) ** spec["an"]
    return np.sum(s * wt, axis=-1) * (1 - x)


def pressure(spec, prof, x, span):
    return -span * prof.pprime(0.0) * shape_integral(spec, x)


def fpol(spec, prof, x, span):
    return np.sign(spec["fvac"]) * np.sqrt(spec["fvac"] ** 2 - 2 * span * prof.ffprime(0.0) * shape_integral(spec, x))


def run(plan, sim):
    import freegs

    W = w.solved(plan, sim, seam=True)
    eq, tok, prof, constrain = W.eq, W.tok, W.profiles, W.constrain
    spec, n = plan["profiles"], plan["npoints"]
    fails, stale = 0, False
    if not judge(sim, eq, prof, spec, n):
        sim.skip("boundary not resolved by rays")
    for i, op in enumerate(plan["ops"]):
        k = op[0]
        # Everything at the beginning and the end, in turns in between
        parts = ("shape", "volume") if i == len(plan["ops"]) - 1 else ("shape",) if i % 2 else ("volume",)
        sim.time += 1
        sim.event("op", k, op[1:])
        good = False
        limited = bool(eq.check_limited)
        try:
            with w.quiet(), warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                if k == "linear":
                    eq.solve(prof)
                    good = True
                elif k == "control":
                    constrain(eq)
                    eq.solve(prof)
                    good = True
                elif k == "current":
                    tok[op[1]].current = tok[op[1]].current * (1 + op[2])
                    eq.solve(prof)
                    good = True
                elif k == "picard":
                    freegs.solve(eq, prof, constrain, rtol=3e-3, maxits=30, check_limited=limited)
                    good = True
                elif k == "fail":
                    def fail(x):
                        x[0, :] = 1e3
                        sim.fault(op[1] + "-error")
                        raise Planned(op[1])

                    W.seam.hook[op[1], "before"] = fail
                    try:
                        eq.solve(w.build_profiles(spec, eq))
                    finally:
                        W.seam.hook.clear()
                elif k == "line":
                    other = copy.deepcopy(eq)
                    with LineTracer() as t:
                        other.solve(w.build_profiles(spec, other))
                    with LineTracer(1 + int(op[1] * t.n), KeyboardInterrupt, sim):
                        eq.solve(w.build_profiles(spec, eq))
                elif k == "ask" and op[1] == "intersectsWall" and tok.wall is None:
                    continue
                elif k == "ask":
                    if op[2] is None:
                        qs.ask(eq, op[1])
                    else:
                        with LineTracer() as t:
                            qs.ask(copy.deepcopy(eq), op[1])
                        with LineTracer(1 + int(op[2] * t.n), LINE_EXC[op[3]], sim):
                            qs.ask(eq, op[1])
                elif k == "profiles":
                    spec = op[1]
                    prof = w.build_profiles(spec, eq)
                    eq.solve(prof)
                    good = True
                elif k == "limited":
                    if tok.wall is not None:
                        eq.check_limited = not eq.check_limited
                        eq.solve(prof)
                        good = True
                elif k == "copy":
                    eq = copy.deepcopy(eq)
                    tok = eq.tokamak
                    prof = w.build_profiles(spec, eq)
                    eq.solve(prof)
                    good = True
        except (Planned, KeyboardInterrupt, SystemExit, MemoryError) as e:
            fails += 1
            if k in ("fail", "line"):
                # Whatever the step left behind, the next one replaces it
                stale = True
                continue
        except BaseException as e:
            if type(e).__name__ == "OwnBase":
                fails += 1
            elif isinstance(e, (RuntimeError, ValueError, AssertionError, np.linalg.LinAlgError)):
                sim.event("failed", type(e).__name__)
                sim.probe("failed-" + k)
                return
            else:
                raise
        if good:
            if not np.all(np.isfinite(eq.psi())) or eq.psi_bndry is None or not w.plasma_ok(eq):
                sim.probe("plasma-lost")
                return
        stale = stale and not good
        if good or k == "ask" and not stale:
            if judge(sim, eq, prof, spec, n, parts):
                sim.event("volume", "%.9g" % eq.plasmaVolume())
                sim.state(k, plan["grid"]["nx"], plan["grid"]["ny"], spec["k"], bool(eq.is_limited), eq.plasmaCurrent() > 0, fails)


class Planned(Exception):
    pass
