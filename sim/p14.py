"""P14: sensors report the present state, and keep the last reading while off"""
import copy
import math

import numpy as np

from . import machines as mc
from . import world as w
from .sched import CALL_EXC, LINE_EXC, LineTracer

RUNS = {"quick": 3000, "thorough": 90000}
SHRINK = ["ops"]
RULE = "A plan is a machine with sensors of all kinds and a history of machine changes, plasma changes, switching sensors on and off, moving them, and measurements with and " \
       "without plasma, some of which fail or are interrupted inside a field query; each reading is compared with the reference model, or with the last reading while off."
STATE_MEASURE = "distinct (kind of sensor, status, with plasma, fault) signatures"
TIME_UNIT = "operations and field queries"
REAL = ["freegs (sensors, machine, coils, equilibrium)", "shapely"]
STUB = ["wrappers of the field queries which fail at the planned call"]
ASSUMPTIONS = ["Rogowski loops do not cut through a coil", "field sensors are at least 0.3 m from any conductor", "mirrored or reversed multi-point coils are excluded"]

EXC = CALL_EXC


def gen_sensor(rng, i):
    k = rng.choice(["rog", "bp", "fl"])
    s = {"k": k, "status": rng.flip(0.7), "name": rng.choice([None, "s%d" % i])}
    if k == "rog":
        r0, z0 = rng.uni(0.2, 1.6), rng.uni(-1.9, 1.2)
        r1, z1 = round(r0 + rng.uni(0.2, 1.8), 4), round(z0 + rng.uni(0.2, 3.0), 4)
        if rng.flip(0.3):
            r0, r1, z0, z1 = 0.02, 3.5, -3.0, 3.0
        s.update(R=[r0, r0, r1, r1], Z=[z0, z1, z1, z0])
        if rng.flip(0.4):
            n = rng.choice([3, 5, 6])
            a0, c, q = rng.uni(0, 6), [rng.uni(0.8, 1.8), rng.uni(-0.8, 0.8)], [rng.uni(0.3, 0.7), rng.uni(0.3, 1.5)]
            s.update(R=[round(c[0] + q[0] * math.cos(a0 + 2 * math.pi * i / n), 4) for i in range(n)], Z=[round(c[1] + q[1] * math.sin(a0 + 2 * math.pi * i / n), 4) for i in range(n)])
        if rng.flip(0.3):
            s["R"].reverse(), s["Z"].reverse()
    else:
        s["R"], s["Z"] = mc.gen_point(rng)
        if k == "bp":
            s["theta"] = rng.choice([0.0, round(np.pi / 2, 6), rng.uni(-4, 4)])
    return s


def gen(rng, tier):
    m = mc.gen_any(rng)
    for _, c in m["coils"]:
        c.pop("mirror", None)
        c.pop("polarity", None)
    m["sensors"] = [gen_sensor(rng, i) for i in range(rng.choice([1, 2, 4, 6]))]
    plan = {"machine": m, "grid": w.gen_grid(rng, allow33=False)}
    plan["grid"].update(nx=rng.choice([9, 17]), ny=rng.choice([9, 17]))
    # Further equilibria of the same machine, on other domains
    plan["grids"] = [plan["grid"], dict(plan["grid"], Rmin=0.3, Rmax=1.9, Zmin=-0.9, Zmax=0.95), dict(plan["grid"], Rmin=0.25, Zmin=-1.2),
                     dict(plan["grid"], Zmin=-1.5, Zmax=0.6), dict(plan["grid"], Rmin=0.6, Rmax=2.6, Zmin=-0.5, Zmax=1.4)]
    ops = []
    for _ in range(rng.choice([2, 4, 8, 12])):
        k = rng.choice(["change", "change", "toggle", "toggle", "plasma", "measure", "measure", "measure", "sensor"])
        if k == "change":
            ops.append(mc.gen_change(rng))
        elif k == "toggle":
            ops.append(["toggle", rng.uni(0, 1)])
        elif k == "sensor":
            ops.append(["sensor", rng.uni(0, 1), mc.gen_point(rng), rng.uni(-3, 3)])
        elif k == "plasma":
            ops.append(["plasma", rng.uni(0.7, 1.4), rng.uni(-0.4, 0.4), rng.uni(0.2, 0.5), rng.uni(-3e5, 3e5, 0)])
        else:
            ops.append(gen_measure(rng))
    ops.append(gen_measure(rng))
    plan["ops"] = ops
    return plan


def gen_measure(rng):
    fault = None
    if rng.flip(0.4):
        fault = [rng.choice(["fail", "fail", "line"]), rng.choice([1, 1, 2, 3, 4, 6, 9]), rng.choice(sorted(EXC)), rng.uni(0, 1)]
    return ["measure", rng.choice(["take", "take", "print", "single"]), rng.choice([None, None, 0, 0, 1, 2, 3, 4, "copy"]), fault]


class Queries:
    """Field queries of the machine and the equilibrium, failing at the n-th"""

    NAMES = ("psi", "Br", "Bz", "psiRZ", "plasmaBr", "plasmaBz")

    def __init__(self, objs, fault, sim):
        self.fault, self.sim = fault, sim
        self.n = 0
        self.fired = None
        self.set = []
        for o in objs:
            for name in self.NAMES:
                if hasattr(o, name):
                    setattr(o, name, self.wrap(getattr(o, name)))
                    self.set.append((o, name))

    def wrap(self, f):
        def g(*a, **k):
            self.n += 1
            hit = self.fault is not None and self.n == self.fault[1] and self.fired is None
            if hit and self.fault[0] == "fail":
                self.fired = EXC[self.fault[2]]("planned")
                self.sim.fault("query-" + self.fault[2])
                raise self.fired
            if hit:
                exc = LINE_EXC.get(self.fault[2], KeyboardInterrupt)
                with LineTracer(1 + int(self.fault[3] * 20), exc, self.sim) as t:
                    try:
                        return f(*a, **k)
                    finally:
                        if t.fired:
                            self.fired = exc
            return f(*a, **k)

        return g

    def remove(self):
        for o, name in self.set:
            delattr(o, name)


def convex(s):
    """Corners of a convex loop, counter-clockwise"""
    p = list(zip(s["R"], s["Z"]))
    area = sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))
    return p if area > 0 else p[::-1]


def inside(s, r, z):
    """Is a point inside a loop (1), outside (0), or too close to the edge (None)"""
    p = convex(s)
    d = 1e9
    for (a, b), (c, e) in zip(p, p[1:] + p[:1]):
        d = min(d, ((c - a) * (z - b) - (e - b) * (r - a)) / math.hypot(c - a, e - b))
    if abs(d) < 1e-3:
        return None
    return 1 if d > 0 else 0


def overlap(s, r0, r1, z0, z1):
    """Area of a cell inside a loop"""
    cell = [(r0, z0), (r1, z0), (r1, z1), (r0, z1)]
    p = convex(s)
    for (a, b), (c, e) in zip(p, p[1:] + p[:1]):
        side = [(c - a) * (z - b) - (e - b) * (r - a) for r, z in cell]
        new = []
        for i in range(len(cell)):
            j = (i + 1) % len(cell)
            if side[i] >= 0:
                new.append(cell[i])
            if side[i] * side[j] < 0:
                t = side[i] / (side[i] - side[j])
                new.append((cell[i][0] + t * (cell[j][0] - cell[i][0]), cell[i][1] + t * (cell[j][1] - cell[i][1])))
        cell = new
        if not cell:
            return 0.0
    return w.poly_area(cell)


def extent(src):
    """Corners and loops of a source"""
    pts = [(r, z) for r, z, _ in src.loops()]
    shape = src.spec.get("shape")
    if shape and src.spec["k"] == "shaped":
        pts += [(r + src.dR, z + src.dZ) for r, z in shape]
    return pts


def expected(P, s, sensor, eq, J):
    """(value, tolerance) or None where no claim is made"""
    if s["k"] == "rog":
        total, mag = 0.0, 0.0
        for _, src in P.ref.src:
            parts = [(src, 1.0)] if isinstance(src, w.RefSource) else [(m, mult) for _, m, mult in src.members]
            for one, mult in parts:
                loops = one.loops()
                ins = [inside(s, r, z) for r, z in extent(one)]
                if None in ins:
                    return None
                if one.spec["k"] == "multi" or one.spec["k"] == "shaped":
                    if len(set(ins)) > 1:
                        return None
                n = sum(x * inside(s, r, z) for r, z, x in loops)
                total += src.I * mult * n
                mag += abs(src.I * mult * n)
        if eq is not None:
            R, Z = eq.R[:, 0], eq.Z[0, :]
            dR, dZ = R[1] - R[0], Z[1] - Z[0]
            A = np.array([[overlap(s, r - dR / 2, r + dR / 2, z - dZ / 2, z + dZ / 2) for z in Z] for r in R])
            total += float(np.sum(J * A))
            mag += float(np.sum(np.abs(J) * A))
        return total, 1e-9 * mag + 1e-9
    R, Z = np.array(float(sensor.R)), np.array(float(sensor.Z))
    if not P.far([(float(R), float(Z))]):
        return None
    if eq is not None and not (eq.Rmin < R < eq.Rmax and eq.Zmin < Z < eq.Zmax):
        return None  # outside the domain of this equilibrium
    if s["k"] == "fl":
        v, mag = P.ref.field("psi", R, Z)
        tol = mc.tolerance(P.ref, "psi")
        plasma = float(np.squeeze(eq.psiRZ(float(R), float(Z)) - P.real.psi(float(R), float(Z)))) if eq is not None else 0.0
        return float(v) + plasma, tol * float(mag) + 1e-9 * abs(plasma) + 1e-13
    c, d = np.cos(sensor.theta), np.sin(sensor.theta)
    (br, m1), (bz, m2) = P.ref.field("Br", R, Z), P.ref.field("Bz", R, Z)
    v = br * c + bz * d
    plasma = 0.0
    if eq is not None:
        plasma = float(np.squeeze(eq.plasmaBr(float(R), float(Z)) * c + eq.plasmaBz(float(R), float(Z)) * d))
    return float(v) + plasma, mc.tolerance(P.ref, "Br") * float(np.hypot(m1, m2)) + 1e-9 * abs(plasma) + 1e-13


def reading(s):
    return None if s.measurement is None else float(np.squeeze(s.measurement))


def run(plan, sim):
    from freegs import jtor

    if not plan["machine"]["coils"]:
        sim.skip("no coils fit")
    P = mc.Pair(plan["machine"], sim)
    specs = plan["machine"]["sensors"]
    status = [s["status"] for s in specs]
    last = [None] * len(specs)
    plasma = [1.0, 0.0, 0.3, 1e5]
    prof = jtor.ProfilesPprimeFfprime(lambda x: 0.0, lambda x: 0.0, 1.0)
    live = {}  # equilibria on this machine as it is now
    domain = 0

    def build(number):
        if number == "copy":
            e, j = build(domain)
            return copy.deepcopy(e), j
        if number in live:
            return live[number]
        e = w.build_eq(plan["grids"][number], P.real)
        j = plasma[3] * np.exp(-((e.R - plasma[0]) ** 2 + (e.Z - plasma[1]) ** 2) / plasma[2] ** 2)
        e.solve(prof, Jtor=j)
        live[number] = e, j
        return e, j

    for op in plan["ops"]:
        sim.time += 1
        sensors = P.real.sensors
        if op[0] == "toggle":
            i = min(int(op[1] * len(specs)), len(specs) - 1)
            status[i] = not status[i]
            sensors[i].status = status[i]
        elif op[0] == "sensor":
            i = min(int(op[1] * len(specs)), len(specs) - 1)
            if specs[i]["k"] != "rog":
                sensors[i].R, sensors[i].Z = op[2]
                if specs[i]["k"] == "bp":
                    sensors[i].theta = op[3]
        elif op[0] == "plasma":
            plasma = op[1:]
            live = {}
        elif op[0] == "measure":
            _, how, which, fault = op
            with_eq = which is not None
            e, J = build(which) if with_eq else (None, None)
            if which in (0, 1, 2, 3, 4):
                domain = which

            def measure():
                if how == "take":
                    P.real.takeMeasurements(e)
                elif how == "print":
                    with w.quiet():
                        P.real.printMeasurements(eq=e)
                else:
                    for s in sensors:
                        s.get_measure(P.real, e)

            # Readings a correct measurement gives now
            want = [expected(P, s, x, e, J) for s, x in zip(specs, sensors)]
            state = w.machine_state(P.real)
            flux = e.plasma_psi.copy() if with_eq else None

            def check(partial):
                for i, (s, x) in enumerate(zip(specs, sensors)):
                    got = reading(x)
                    sim.check(bool(x.status) == status[i], "status-changed", "sensor %d" % i)
                    keeps = got == last[i]
                    if not status[i]:
                        sim.check(keeps, "off-sensor-changed", lambda: "sensor %d (%s) read %r, was off with %r" % (i, s["k"], got, last[i]))
                    elif want[i] is not None and not (partial and keeps):
                        v, tol = want[i]
                        sim.check(got is not None and abs(got - v) <= tol, "wrong-reading", lambda: "sensor %d (%s) reads %r, expected %g +- %g" % (i, s["k"], got, v, tol))
                    last[i] = got
                    sim.state(s["k"], status[i], which, partial)
                d = w.difference(state, w.machine_state(P.real))
                sim.check(d is None, "machine-changed", lambda: d)
                if flux is not None:
                    sim.check(np.array_equal(flux, e.plasma_psi), "plasma-changed", "")

            if fault is not None:
                q = Queries([P.real] + ([e] if with_eq else []), fault, sim)
                err = None
                try:
                    measure()
                except BaseException as x:
                    err = x
                finally:
                    q.remove()
                sim.time += q.n
                if q.fired is not None:
                    ok = isinstance(err, q.fired) if isinstance(q.fired, type) else err is q.fired
                    sim.check(ok, "failure-swallowed", lambda: "planned %r, measurement gave %r" % (q.fired, err))
                elif err is not None:
                    raise err
                check(q.fired is not None)
            measure()
            check(False)
            sim.event("measured", repr(last))
        else:
            before = P.real
            if P.apply(op) or P.real is not before:
                live = {}
    P.check_left()
