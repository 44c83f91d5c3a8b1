"""P12: flux and field equal the sum over all current sources after any history"""
import numpy as np

from . import machines as mc
from . import world as w
from .sched import LineTracer

RUNS = {"quick": 4000, "thorough": 120000}
SHRINK = ["ops"]
RULE = "A plan is a machine and a history of current changes, control switches, moves, changes of turns, copies, and queries of every form (points, arrays, " \
       "response maps, control responses, through an equilibrium with plasma), some of which are interrupted at a seeded line or fail on bad arguments."
STATE_MEASURE = "distinct (query, kinds of coils, moved) signatures"
TIME_UNIT = "operations"
REAL = ["freegs (machine, coils, equilibrium)"]
STUB = []
ASSUMPTIONS = ["points at least 0.3 m from any conductor", "coils are moved and given turns through their public members", "an equilibrium is built after coils move"]

QUERIES = ["point", "list", "grid", "greens", "control", "eq", "single"]


def gen(rng, tier):
    plan = {"machine": mc.gen_any(rng), "plasma": [rng.uni(0.7, 1.4), rng.uni(-0.4, 0.4), rng.uni(0.2, 0.5), rng.choice([0.0, rng.uni(-0.3, 0.3)])],
            "grid": w.gen_grid(rng, allow33=False)}
    plan["grid"].update(nx=rng.choice([9, 17]), ny=rng.choice([9, 17]))
    ops = []
    for _ in range(rng.choice([3, 6, 10, 16])):
        if rng.flip(0.5):
            ops.append(mc.gen_change(rng))
        else:
            fault = rng.choice([None, None, None, "INT", "INT", "BAD"])
            ops.append(["query", rng.choice(QUERIES), rng.choice(["psi", "Br", "Bz"]), [mc.gen_point(rng) for _ in range(rng.choice([1, 3, 6]))], fault, rng.uni(0, 1)])
    ops.append(["query", rng.choice(["point", "list"]), rng.choice(["psi", "Br", "Bz"]), [mc.gen_point(rng) for _ in range(4)], None, 0.0])
    plan["ops"] = ops
    return plan


def run(plan, sim):
    P = mc.Pair(plan["machine"], sim)
    kinds = tuple(sorted({c["k"] for _, c in plan["machine"]["coils"]}))
    if not plan["machine"]["coils"]:
        sim.skip("no coils fit")
    maps = {}
    eq = None
    for op in plan["ops"]:
        sim.time += 1
        if op[0] != "query":
            before = P.real
            if P.apply(op):
                maps.clear()
                eq = None
            if P.real is not before:
                eq = None
            P.check_state()
            continue
        _, kind, what, pts, fault, at = op
        pts = P.far(pts)
        if not pts:
            continue
        R, Z = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        if kind == "eq" and eq is None:
            eq = w.build_eq(plan["grid"], P.real)
            r0, z0, wid, amp = plan["plasma"]
            eq = w.build_eq(plan["grid"], P.real, psi=amp * np.exp(-((eq.R - r0) ** 2 + (eq.Z - z0) ** 2) / wid ** 2))
        if fault is not None:
            f = lambda: query(P, eq, maps, kind, what, R, Z, lambda *a, **k: None)
            if fault == "BAD":
                try:
                    with np.errstate(all="ignore"):
                        getattr(P.real, what)(np.array([1.0, 1.1, 1.2]), np.array([0.1, 0.2]))
                except ValueError:
                    sim.fault("bad-arguments")
            else:
                with LineTracer() as t:
                    f()
                n = t.n
                with LineTracer(1 + int(at * n), KeyboardInterrupt, sim) as t:
                    try:
                        f()
                    except KeyboardInterrupt:
                        pass
            P.check_state()
        sim.state(kind, what, kinds, P.moved, fault)
        query(P, eq, maps, kind, what, R, Z, lambda got, R, Z, plasma=0.0, extra="": judge(P, sim, kind, what, got, R, Z, plasma))
    P.check_left()


def judge(P, sim, kind, what, got, R, Z, plasma=0.0):
    want, mag = P.ref.field(what, R, Z)
    if what != "psi":
        mag = np.hypot(mag, P.ref.field("Br" if what == "Bz" else "Bz", R, Z)[1])
    got = np.asarray(got, dtype=float) - plasma
    ok = got.shape == np.shape(want) or got.size == np.size(want)
    sim.check(ok, "shape", lambda: "%s of %s: shape %s, expected %s" % (kind, what, got.shape, np.shape(want)))
    got = got.reshape(np.shape(want))
    tol = mc.tolerance(P.ref, what)
    floor = 1e-13 + 1e-9 * np.max(np.abs(plasma))
    err = np.abs(got - want)
    sim.check(bool(np.all(err <= tol * mag + floor)), "not-the-sum", lambda: "%s of %s: %s, expected %s" % (kind, what, got, want))
    # A machine newly built in the present state gives the same, to rounding
    fresh = np.asarray(getattr(P.fresh(), what)(R, Z), dtype=float)
    t2 = 1e-10 if what == "psi" else 1e-7
    sim.check(bool(np.all(np.abs(got - fresh) <= t2 * mag + floor)), "differs-from-new-machine", lambda: "%s of %s: %s, new machine %s" % (kind, what, got, fresh))
    sim.event(kind, what, w.digest(np.asarray(got)))


def query(P, eq, maps, kind, what, R, Z, judge):
    m = P.real
    if kind == "point":
        for r, z in zip(R, Z):
            judge(getattr(m, what)(float(r), float(z)), np.array(r), np.array(z))
    elif kind == "list":
        judge(getattr(m, what)(R, Z), R, Z)
    elif kind == "grid":
        n = len(R)
        R2, Z2 = np.meshgrid(R, Z, indexing="ij")
        keep = [(r, z) in set(P.far([(r, z)])) for r, z in zip(R2.ravel(), Z2.ravel())]
        got = getattr(m, what)(R2, Z2)
        k = np.array(keep)
        judge(np.asarray(got).ravel()[k], R2.ravel()[k], Z2.ravel()[k])
    elif kind == "greens":
        key = tuple(R) + tuple(Z)
        if key not in maps:
            maps[key] = m.createPsiGreens(R, Z)
        if what == "psi":
            judge(m.calcPsiFromGreens(maps[key]), R, Z)
        # Any map made before is still good for the present currents
        k = sorted(maps)[0]
        r, z = np.array(k[:len(k) // 2]), np.array(k[len(k) // 2:])
        got = m.calcPsiFromGreens(maps[k])
        if what == "psi":
            judge(got, r, z)
    elif kind == "control":
        name = {"psi": "controlPsi", "Br": "controlBr", "Bz": "controlBz"}[what]
        got = getattr(m, name)(R, Z)
        # Weighted with their currents these are the fields of the controlled coils
        on = [c for c, f in zip(m.coils, P.control) if f]
        total = sum(np.asarray(g) * c.current for g, (_, c) in zip(got, on)) if on else np.zeros(R.shape)
        off = sum((np.asarray(getattr(c, what)(R, Z)) for (_, c), f in zip(m.coils, P.control) if not f), np.zeros(R.shape))
        assert len(got) == len(on) or judge(np.zeros(3), R, Z)
        judge(total + off, R, Z)
    elif kind == "single":
        total = 0.0
        for label, _ in m.coils:
            total = total + np.asarray(getattr(m[label], what)(R, Z))
        judge(total, R, Z)
    elif kind == "eq":
        if what == "psi":
            judge(eq.psiRZ(R, Z), R, Z, plasma=np.asarray(eq.psiRZ(R, Z) - m.psi(R, Z)))
            i = np.array(P.far(list(zip(eq.R.ravel(), eq.Z.ravel()))))
            keep = np.array([(r, z) in set(map(tuple, i)) for r, z in zip(eq.R.ravel(), eq.Z.ravel())])
            judge(eq.psi().ravel()[keep], eq.R.ravel()[keep], eq.Z.ravel()[keep], plasma=np.asarray(eq.plasma_psi).ravel()[keep])
            # and the point value agrees with the grid value
            judge(eq.psiRZ(eq.R, eq.Z).ravel()[keep], eq.R.ravel()[keep], eq.Z.ravel()[keep], plasma=np.asarray(eq.plasma_psi).ravel()[keep])
        else:
            p = {"Br": eq.plasmaBr, "Bz": eq.plasmaBz}[what](R, Z)
            judge(getattr(eq, what)(R, Z), R, Z, plasma=np.asarray(p))
