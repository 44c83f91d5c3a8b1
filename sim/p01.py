"""P01: HDF5 save and restore fidelity, over histories of the live equilibrium"""
import copy
import math
import os

import numpy as np

from . import world as w
from .disk import Device

RUNS = {"quick": 480, "thorough": 9000}
SHRINK = ["ops", "machine.coils"]
RULE = "A plan is a machine (random coil kinds, wiring, labels, wall), a grid, a plasma (solved or synthetic) and a history of " \
       "solves, current/control changes, coil moves, failed and successful saves, ending with a save and restore."
STATE_MEASURE = "distinct (coil kinds, grid, boundary, wall, history kinds) signatures"
REAL = ["freegs (all of it)", "h5py and the HDF5 library", "numpy/scipy"]
STUB = ["disk (simulated block device below HDF5's file-object driver)"]
ASSUMPTIONS = ["coil labels without '/'", "circuits with at least one non-zero multiplier", "coil area model, reference radius, sensors and "
               "solver order are not part of the file format"]


def gen_any_coil(rng, i, depth=0):
    r, z = rng.uni(0.3, 2.4), rng.uni(-1.6, 1.6)
    k = rng.choice(["coil", "coil", "shaped", "fil", "sol", "circuit", "mirror"])
    cur = rng.choice([0.0, 1.0, -3.25e4, 1e-7, 123456.789012345, rng.uni(-1e5, 1e5, 6), rng.randrange(-5000, 5000)])
    ctl = rng.flip(0.6)
    if k == "coil":
        s = {"k": "coil", "R": r, "Z": z, "turns": rng.choice([1, 2, 48, 1000])}
        if rng.flip(0.2):
            s["R"], s["Z"] = rng.choice([1, 2]), rng.choice([-1, 0, 1])
    elif k == "shaped":
        n = rng.choice([3, 4, 5, 7, 9, 10])
        a, b = rng.uni(0.02, 0.2), rng.uni(0.02, 0.2)
        s = {"k": "shaped", "shape": [[round(r + a * math.cos(2 * math.pi * j / n + 0.3), 6), round(z + b * math.sin(2 * math.pi * j / n + 0.3), 6)] for j in range(n)],
             "turns": rng.choice([1, 3, 100]), "npoints": rng.choice([1, 3, 6])}
        if rng.flip(0.4):
            s["shape"] = s["shape"][::-1]
    elif k == "fil":
        n = rng.choice([1, 2, 9, 60, 499, 500] if rng.flip(0.5) else [1, 2, 3, 5])
        s = {"k": "fil", "Rfil": [rng.uni(r - 0.1, r + 0.1) for _ in range(n)], "Zfil": [rng.uni(z - 0.1, z + 0.1) for _ in range(n)],
             "turns": rng.choice([1, 4, 20])}
        if n < 3 or rng.flip(0.5):
            s["shape"] = w.rect(r, z, 0.25, 0.21)
    elif k == "sol":
        s = {"k": "sol", "Rs": rng.uni(0.02, 0.3), "Zmin": rng.uni(-1.5, -0.1), "Zmax": rng.uni(0.1, 1.5), "Ns": rng.choice([1, 2, 10, 100])}
    elif k == "mirror":
        s = {"k": "mirror", "R": r, "Z": abs(z) + 0.05, "turns": rng.choice([1, 7]), "symmetric": rng.flip(0.5)}
    else:
        n = rng.choice([1, 2, 3, 5])
        names = ["U", "L", "m_1", "z z", "\u00e9", "0", "longer coil label with spaces and 30+ characters"]
        rng.shuffle(names)
        members = [[names[j], {"k": "coil", "R": rng.uni(0.3, 2.4), "Z": rng.uni(-1.5, 1.5), "turns": rng.choice([1, 2, 16])},
                    rng.choice([1.0, -1.0, 0.0, 0.5, 3.0, -0.125, 1.0 / 3.0])] for j in range(n)]
        if not any(m[2] for m in members):
            members[rng.randrange(n)][2] = rng.choice([1.0, -2.0])
        s = {"k": "circuit", "coils": members}
    s["I"], s["control"] = cur, ctl
    return s


def gen(rng, tier):
    if rng.flip(0.6):
        n = rng.choice([0, 1, 1, 2, 3, 5, 8])
        names = w.labels(rng, n) if rng.flip(0.6) else ["C%d" % i for i in range(n)]
        m = {"coils": [[names[i], gen_any_coil(rng, i)] for i in range(n)]}
        if rng.flip(0.6):
            k = rng.choice([3, 4, 6, 40])
            m["wall"] = [[rng.uni(0.2, 2.5) for _ in range(k)], [rng.uni(-1.5, 1.5) for _ in range(k)]]
            if rng.flip(0.2):
                m["wall"] = [[1, 1, 2, 2], [-1, 1, 1, -1]]
        nx, ny = rng.choice([(9, 9), (9, 17), (17, 9), (9, 33), (17, 17)])
        g = {"Rmin": rng.choice([0.1, 0.3, rng.uni(0.05, 0.5)]), "Rmax": rng.uni(1.5, 3.0), "Zmin": rng.uni(-2.0, -0.5), "Zmax": rng.uni(0.4, 2.0),
             "nx": nx, "ny": ny, "order": 4, "boundary": rng.choice(["freeBoundary", "freeBoundary", "fixedBoundary", "freeBoundaryHagenow"])}
        plan = {"mode": "synthetic", "machine": m, "grid": g, "amp": rng.choice([0.0, 1.0, -0.3, 1e-6, rng.uni(-2, 2)]),
                "current": rng.choice([0.0, 1, -2.5e5, rng.uni(-1e6, 1e6)])}
    else:
        s = w.gen_plasma(rng, odd_labels=rng.flip(0.5))
        s["grid"]["boundary"] = rng.choice(["freeBoundary", "freeBoundary", "freeBoundary", "freeBoundaryHagenow"])
        plan = dict(s, mode="solved")
    ops = []
    nc = len(plan["machine"]["coils"])
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        kind = rng.choice(["cur", "cur", "ctl", "move", "save", "failsave", "lin", "roundtrip"])
        if kind in ("cur", "ctl", "move") and not nc:
            continue
        if kind == "cur":
            ops.append(["cur", rng.randrange(nc), rng.choice([0.0, -1.0, rng.uni(-1e5, 1e5)])])
        elif kind == "ctl":
            ops.append(["ctl", rng.randrange(nc), rng.flip()])
        elif kind == "move":
            ops.append(["move", rng.randrange(nc), rng.uni(-0.1, 0.2), rng.uni(-0.2, 0.2)])
        elif kind == "failsave":
            ops.append(["failsave", rng.uni(0, 1), rng.choice(["ENOSPC", "EIO"])])
        else:
            ops.append([kind])
    plan["ops"] = ops
    plan["mode_w"] = rng.choice(["w", "w", "w", "a", "w-", "path"])
    plan["mode_r"] = rng.choice(["r", "r", "r", "r+", "a"])
    plan["generations"] = rng.choice([1, 1, 2, 3])
    return plan


def save(dev, eq, mode="w"):
    from freegs import OutputFile

    if mode == "w" and isinstance(dev, Device) and dev.buf:
        dev.seek(0)
        dev.truncate(0)  # what open(O_TRUNC) does; HDF5's file-object driver leaves it to the file object
    with OutputFile(dev, mode) as f:
        f.write_equilibrium(eq)


def restore(dev, mode="r"):
    from freegs import OutputFile

    with OutputFile(dev, mode) as f:
        return f.read_equilibrium()


def by_label(state):
    return {label: s for label, s in state["coils"]}


def coil_diff(a, b):
    """Difference of two coil states, currents of circuits may be recomputed (1 ulp)"""
    return w.difference(a, b, 1e-12)


def compare(sim, eq, eq2, what):
    """The restored equilibrium eq2 is the same as eq"""
    sim.check(w.same_array(eq.R, eq2.R) and w.same_array(eq.Z, eq2.Z), what + "-grid", "grids differ: %s %s" % (np.shape(eq.R), np.shape(eq2.R)))
    for name in ("Rmin", "Rmax", "Zmin", "Zmax", "nx", "ny"):
        sim.check(float(getattr(eq, name)) == float(getattr(eq2, name)), what + "-domain", name)
    sim.check(w.same_array(eq.R_1D, eq2.R_1D) and w.same_array(eq.Z_1D, eq2.Z_1D), what + "-grid", "1D grids differ")
    sim.check(float(eq.plasmaCurrent()) == float(eq2.plasmaCurrent()), what + "-current", "%r != %r" % (eq.plasmaCurrent(), eq2.plasmaCurrent()))
    sim.check(w.same_array(eq.plasma_psi, eq2.plasma_psi), what + "-plasma-flux", "plasma flux differs")
    s1, s2 = w.machine_state(eq.tokamak), w.machine_state(eq2.tokamak)
    c1, c2 = by_label(s1), by_label(s2)
    sim.check(len(s2["coils"]) == len(s1["coils"]) and c1.keys() == c2.keys(), what + "-coils", "labels %s != %s" % (sorted(c1), sorted(c2)))
    for label in c1:
        d = coil_diff(c1[label], c2[label])
        sim.check(d is None, what + "-coil", "coil %r: %s" % (label, d))
    d = w.difference(s1["wall"], s2["wall"])
    sim.check(d is None, what + "-wall", d)
    sim.check(w.same_array(eq.psi(), eq2.psi(), 1e-11), what + "-flux", "total flux differs")
    pts = np.array([eq.Rmin + f * (eq.Rmax - eq.Rmin) for f in (0.21, 0.52, 0.83)]), np.array([eq.Zmin + f * (eq.Zmax - eq.Zmin) for f in (0.27, 0.55, 0.71)])
    for name in ("psiRZ", "plasmaBr", "plasmaBz", "Br", "Bz"):
        a, b = getattr(eq, name)(*pts), getattr(eq2, name)(*pts)
        sim.check(w.same_array(a, b, 1e-9), what + "-" + name, "%s differs" % name)


def boundary_behaviour(eq, J):
    """Plasma flux on the domain edge for a given current density: identifies the boundary condition"""
    e = copy.deepcopy(eq)

    class P:
        def Jtor(self, *a, **k):
            return J

        def pprime(self, x):
            return 0.0

        ffprime = fpol = pressure = pprime

        def fvac(self):
            return 1.0

    e.setSolver(lambda x, b: b)
    e.solve(P(), Jtor=J)
    p = e.plasma_psi
    return np.concatenate([p[0, :], p[-1, :], p[:, 0], p[:, -1]])


def build(plan):
    if plan["mode"] == "solved":
        W = w.World(plan)
        W.linear(1)
        return W.tok, W.eq, W.profiles, W.constrain
    tok = w.build_machine(plan["machine"])
    g = plan["grid"]
    R, Z = np.meshgrid(np.linspace(g["Rmin"], g["Rmax"], g["nx"]), np.linspace(g["Zmin"], g["Zmax"], g["ny"]), indexing="ij")
    psi = plan["amp"] * np.exp(-((R - 1.1) ** 2 + (Z - 0.1) ** 2) / 0.3) * np.cos(R * 1.3 + Z)
    eq = w.build_eq(g, tok, psi=psi, current=plan["current"])
    return tok, eq, None, None


def run(plan, sim):
    with w.quiet():
        tok, eq, profiles, constrain = build(plan)
    for op in plan["ops"]:
        sim.event("op", *op)
        kind = op[0]
        if kind in ("cur", "ctl", "move") and op[1] >= len(tok.coils):
            continue
        if kind == "cur":
            tok.coils[op[1]][1].current = op[2]
        elif kind == "ctl":
            tok.coils[op[1]][1].control = op[2]
        elif kind == "move":
            c = tok.coils[op[1]][1]
            if hasattr(c, "R"):
                c.R = c.R + op[2]
                c.Z = c.Z + op[3]
                eq = w.build_eq(plan["grid"], tok, psi=eq.plasma_psi.copy(), current=eq.plasmaCurrent())
                profiles = None
        elif kind == "lin" and profiles is not None:
            with w.quiet():
                try:
                    eq.solve(profiles)
                except ValueError:
                    pass  # e.g. no axis after a current change: not the subject here
        elif kind == "save":
            save(Device(sim=sim), eq)
        elif kind == "roundtrip":
            d = Device(sim=sim)
            save(d, eq)
            restore(Device(d.image()))
        elif kind == "failsave":
            d = Device(sim=sim)
            save(d, eq)
            n = d.n
            bad = Device(fail={1 + int(op[1] * n): op[2]}, sim=sim)
            try:
                save(bad, eq)
            except Exception as e:
                sim.event("failed save", type(e).__name__)
    before = w.observe(eq, profiles=False)
    sim.event("state", w.digest(before))
    J = np.exp(-((eq.R - 1.0) ** 2 + eq.Z ** 2) / 0.2) * 1e5
    J[0, :] = J[-1, :] = 0.0
    J[:, 0] = J[:, -1] = 0.0
    edge = boundary_behaviour(eq, J)
    last = eq
    for g in range(plan["generations"]):
        if plan["mode_w"] == "path":
            name = os.path.join(os.getcwd(), "eq%d.h5" % g)
            save(name, last, "w")
            eq2 = restore(name)
        else:
            dev = Device(sim=sim)
            save(dev, last, plan["mode_w"])
            eq2 = restore(Device(dev.image(), sim=sim), plan["mode_r"])
            sim.event("saved", dev.n, len(dev.buf))
        d = w.difference(before, w.observe(eq, profiles=False))
        sim.check(d is None, "save-changes-equilibrium", d)
        compare(sim, eq, eq2, "restored")
        e2 = boundary_behaviour(eq2, J)
        sim.check(w.same_array(edge, e2, 1e-9), "restored-boundary", lambda: "boundary condition differs by %g" % np.max(np.abs(edge - e2)))
        last = eq2
        sim.event("generation", g, w.digest(w.observe(eq2, profiles=False)))
    kinds = tuple(sorted(type(c).__name__ for _, c in tok.coils))
    sim.state(kinds, plan["grid"]["nx"], plan["grid"]["ny"], plan["grid"]["boundary"], tok.wall is not None, tuple(o[0] for o in plan["ops"]))
