"""P15: independent equilibria do not affect each other in any interleaving"""
import copy
import io

import numpy as np

from . import core
from . import queries as qs
from . import world as w
from .disk import Device
from .sched import LineTracer, Threads

RUNS = {"quick": 220, "thorough": 8000}
SHRINK = ["faults"]
RULE = "A plan is two or three equilibria (often with the same grid or nearly the same machine), each with its own list of operations. They are interleaved operation by " \
       "operation, or line by line as threads, with failing and interrupted operations of an extra equilibrium in between. Each is compared, operation by operation, " \
       "with the same list executed alone in a process of its own."
STATE_MEASURE = "distinct interleavings (order of operations and line-level hand-overs)"
TIME_UNIT = "operations and traced lines"
REAL = ["freegs (all of it; threads are real threads, run one at a time)"]
STUB = ["the thread scheduler", "storage of the saved files"]
ASSUMPTIONS = ["each equilibrium has its own machine and profiles", "optimisation, which draws from Python's global random numbers, is not interleaved",
               "a thread may be preempted between any two lines of freegs, not inside a library call"]

QUERIES = [n for n in qs.NAMES if n not in qs.SLOW and n not in ("print", "plot", "trace")]
PRESETS = ["TestTokamak", "TestTokamakLimited", "TestTokamakSensor", "DIIID", "MAST", "MAST_sym", "TCV", "MASTU_simple", "MASTU"]
RAISES = (RuntimeError, ValueError, AssertionError, IndexError, TypeError, AttributeError, ZeroDivisionError, KeyError, np.linalg.LinAlgError)


def gen_op(rng):
    k = rng.choice(["linear"] * 4 + ["picard"] * 4 + ["control"] * 3 + ["current"] * 3 + ["ask"] * 8 + ["save", "geqdsk", "copy", "copy", "fail", "vcycle", "preset",
                   "rebuild", "profiles", "measure", "sensors", "newprof", "tools", "tools"])
    a = rng.uni(-0.04, 0.04)
    if k == "ask":
        return [k, rng.choice(QUERIES)]
    if k == "picard":
        return [k, rng.choice([2, 5, 20]), rng.choice([0.0, 0.0, 0.2]), rng.flip(0.2)]
    if k == "fail":
        return [k, rng.choice([1, 2]), rng.choice(["linear", "picard"])]
    if k == "preset":
        return [k, rng.choice(PRESETS)]
    if k == "tools":
        return [k, rng.randrange(3)]
    if k == "current":
        return [k, rng.randrange(8), a]
    return [k, a]


def gen(rng, tier):
    base = w.gen_plasma(rng, robust=True, allow33=False)
    base["grid"].update(nx=17, ny=17)
    base["machine"]["sensors"] = [{"k": "bp", "R": 1.6, "Z": 0.3, "theta": 0.7, "name": "b"}, {"k": "fl", "R": 0.5, "Z": 0.1, "name": "f"}]
    worlds = [base]
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["same", "profiles", "machine", "other", "grid"])
        s = copy.deepcopy(base)
        if k == "other":
            s = w.gen_plasma(rng, robust=True, allow33=False)
            s["grid"].update(nx=17, ny=17)
        elif k == "machine":
            o = w.gen_plasma(rng, robust=True, allow33=False)
            s["machine"], s["constrain"] = o["machine"], o["constrain"]
        elif k == "grid":
            s["grid"] = dict(w.gen_grid(rng, allow33=False), nx=17, ny=17)
            if rng.flip(0.5):
                # Only one limit of the domain differs
                side, by = rng.choice([("Rmin", 0.1), ("Rmax", 0.1), ("Zmin", -0.15), ("Zmax", 0.15)])
                s["grid"] = dict(base["grid"])
                s["grid"][side] = round(s["grid"][side] + by, 6)
        if k != "same":
            s["profiles"] = w.gen_profiles(rng)
            if "am" in s["profiles"]:
                s["profiles"].update(am=1.0, an=2.0, Raxis=1.0)
        if rng.flip(0.5):
            for _, c in s["machine"]["coils"]:
                c["I"] = rng.uni(-1e4, 1e4, 1)
        s["machine"].setdefault("sensors", [{"k": "fl", "R": 0.55, "Z": -0.1, "name": "f"}])
        worlds.append(s)
    ops = [[gen_op(rng) for _ in range(rng.choice([3, 5, 8]))] for _ in worlds]
    plan = {"worlds": worlds, "ops": ops, "mode": rng.choice(["ops", "ops", "threads"]), "schedule": rng.randrange(1 << 30), "p": rng.choice([0.2, 0.02, 0.002, 0.0005]),
            "shared": rng.flip(0.5), "faults": []}
    if rng.flip(0.6):
        plan["faults"] = [[rng.choice(["linear", "picard", "control", "profile"]), rng.uni(0, 1, 6)] for _ in range(rng.choice([1, 2, 4]))]
    return plan


def shrink(plan):
    n = len(plan["worlds"])
    for i in range(n if n > 1 else 0):
        new = copy.deepcopy(plan)
        del new["worlds"][i], new["ops"][i]
        yield new
    for i in range(n):
        for smaller in core.list_reductions(plan["ops"][i]):
            new = copy.deepcopy(plan)
            new["ops"][i] = smaller
            yield new


class Failing:
    """Profiles which fail at the n-th use"""

    def __init__(self, real, n):
        self.real, self.n, self.calls = real, n, 0

    def Jtor(self, *a, **k):
        self.calls += 1
        if self.calls == self.n:
            raise RuntimeError("planned")
        return self.real.Jtor(*a, **k)

    def __getattr__(self, name):
        if name in ("real", "n", "calls") or name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real, name)


class Actor:
    def __init__(self, spec, constrain=None):
        self.W = w.World(spec)
        self.spec = spec
        if constrain is not None:
            self.W.constrain = constrain
        self.dead = False

    def do(self, op):
        """One operation: (kind of error, its own result, what is seen of the equilibrium afterwards)"""
        out, err = None, None
        with np.errstate(all="ignore"):
            try:
                out = getattr(self, "op_" + op[0])(*op[1:])
            except RAISES as e:
                err = type(e).__name__
            try:
                seen = w.observe(self.W.eq)
            except RAISES as e:
                seen = type(e).__name__
        return err, out, seen

    def op_linear(self, a):
        self.W.eq.solve(self.W.profiles)

    def op_picard(self, n, blend, limited):
        return self.W.picard(maxits=n, blend=blend, check_limited=limited, rtol=2e-3, convergenceInfo=True)

    def op_control(self, a):
        self.W.constrain(self.W.eq)

    def op_current(self, i, a):
        coils = self.W.tok.coils
        c = coils[i % len(coils)][1]
        c.current = c.current * (1 + a) + 5e3 * a

    def op_ask(self, name):
        return qs.tree(qs.Q[name](self.W.eq))

    def op_measure(self, a):
        self.W.tok.takeMeasurements(self.W.eq)
        return [float(np.squeeze(s.measurement)) for s in self.W.tok.sensors]

    def op_sensors(self, a):
        for s in self.W.tok.sensors:
            s.status = not s.status
        self.W.tok.takeMeasurements(self.W.eq)
        return [s.measurement is None or float(np.squeeze(s.measurement)) for s in self.W.tok.sensors]

    def op_save(self, a):
        from . import p01

        dev = Device()
        p01.save(dev, self.W.eq)
        other = p01.restore(dev)
        return w.observe(other, profiles=False)

    def op_geqdsk(self, a):
        from freegs import geqdsk

        f = io.StringIO()
        geqdsk.write(self.W.eq, f)
        return numbers(f.getvalue())

    def op_copy(self, a):
        eq = self.W.eq
        other = copy.deepcopy(eq)
        before = w.observe(other)
        self.op_current(3, a)
        try:
            eq.solve(self.W.profiles)
        except RAISES:
            pass
        between = w.observe(other)
        mine = w.observe(eq)
        for _, c in other.tokamak.coils:
            c.current = c.current * 1.5 + 100.0
        try:
            other.solve(copy.deepcopy(self.W.profiles))
        except RAISES:
            pass
        other.plasma_psi *= 1.1
        other.tokamak.coils.pop()
        return {"copy": [before, between], "original": [mine, w.observe(eq)]}

    def op_fail(self, n, how):
        prof = Failing(self.W.profiles, n)
        if how == "linear":
            prof.n = 1
            self.W.eq.solve(prof)
        else:
            import freegs

            freegs.solve(self.W.eq, prof, self.W.constrain, maxits=5)

    def op_vcycle(self, a):
        self.W.eq.setSolverVcycle(nlevels=2, ncycle=3, niter=20, direct=True)

    def op_preset(self, name):
        from freegs import machine

        make = getattr(machine, name)
        one = make()
        first = w.machine_state(one)
        for _, c in one.coils:
            c.current = 12345.0
        if one.wall is not None:
            one.wall.R[0] = 77.0
        one.coils.pop()
        return {"copy": [first, w.machine_state(make())]}

    def op_rebuild(self, a):
        """A new equilibrium on the same machine, from the same flux"""
        g = self.spec["grid"]
        eq = w.build_eq(g, self.W.tok, psi=np.array(self.W.eq.plasma_psi), current=self.W.eq.plasmaCurrent())
        self.W.eq = eq
        self.W.profiles = w.build_profiles(self.spec["profiles"], eq)

    def op_profiles(self, a):
        p = self.W.profiles
        return [np.array([p.pprime(x), p.ffprime(x), p.pressure(x), p.fpol(x), p.fvac()], dtype=float) for x in (0.2, 0.7)]

    def op_tools(self, n):
        """Functions of grids and fluxes: the same numbers as the others use, on this equilibrium's domain"""
        import freegs
        from freegs import boundary, critical, jtor
        from freegs.machine import Machine

        g = self.spec["grid"]
        R, Z = np.meshgrid(np.linspace(g["Rmin"], g["Rmax"], 17), np.linspace(g["Zmin"], g["Zmax"], 17), indexing="ij")
        x, y = np.meshgrid(np.linspace(-1, 1, 17), np.linspace(-1, 1, 17), indexing="ij")
        psi = [np.exp(-(x ** 2 + y ** 2) / 0.4), np.exp(-((x - 0.1) ** 2 + (y - 0.3) ** 2) / 0.2) + np.exp(-((x - 0.1) ** 2 + (y + 0.4) ** 2) / 0.2), -np.cos(2.0 * x) * np.cos(1.5 * y)][n]
        if n == 0:
            # One extremum, in the middle of each domain
            for dz in (0.0, 0.3):
                r, z, p = critical.find_critical(R, Z + dz, psi)[0][0]
                if abs(r - R[8, 0]) > 0.02 or abs(z - Z[0, 8] - dz) > 0.02:
                    return {"copy": [["axis", [float(R[8, 0]), float(Z[0, 8] + dz)]], ["axis", [float(r), float(z)]]]}
        opt, xpt = critical.find_critical(R, Z, psi)
        out = [np.array(opt, dtype=float), np.array(xpt, dtype=float)]
        if opt:
            out.append(np.array(critical.core_mask(R, Z, psi, opt, xpt, psi_bndry=0.5 * opt[0][2]), dtype=float))
        eq = freegs.Equilibrium(tokamak=Machine([]), Rmin=g["Rmin"], Rmax=g["Rmax"], Zmin=g["Zmin"], Zmax=g["Zmax"], nx=17, ny=17, boundary=boundary.fixedBoundary, psi=psi.copy())
        eq.solve(jtor.ProfilesPprimeFfprime(lambda s: 0.0, lambda s: 0.0, 1.0), Jtor=1e5 * psi)
        return out + [np.array(eq.plasma_psi), eq.plasmaCurrent()]

    def op_newprof(self, a):
        spec = dict(self.spec["profiles"])
        spec["fvac"] = spec["fvac"] * (1 + a)
        self.W.profiles = w.build_profiles(spec, self.W.eq)


def numbers(text):
    import re

    return np.array([float(x) for x in re.findall(r"[-+]?\d\.\d+[eE][-+]\d+", text)])


def alone(spec, ops):
    a = Actor(spec)
    return [a.do(op) for op in ops]


def judge(sim, who, i, op, want, got, context):
    d = w.difference(list(want), list(got), 1e-8)
    sim.check(d is None, "differs-from-solo-run", lambda: "actor %d, operation %d %s, %s: (alone / interleaved) %s" % (who, i, op, context, d))
    for rec in (want, got):
        if isinstance(rec[1], dict):
            for key in ("copy", "original"):
                if key in rec[1]:
                    d2 = w.difference(rec[1][key][0], rec[1][key][1], 0.0)
                    sim.check(d2 is None, "copy-not-independent", lambda: "actor %d, operation %d %s: %s: %s" % (who, i, op, key, d2))


def saboteur(sim, spec, fault, lines):
    """Fails or is interrupted at a seeded line; nothing of it is compared"""
    kind, x = fault
    try:
        a = Actor(spec)
        with LineTracer(1 + int(x * lines), KeyboardInterrupt, sim):
            with np.errstate(all="ignore"):
                if kind == "linear":
                    a.W.eq.solve(a.W.profiles)
                elif kind == "picard":
                    a.W.picard(maxits=3)
                elif kind == "control":
                    a.W.constrain(a.W.eq)
                else:
                    sim.fault("failing-profiles")
                    a.op_fail(1, "picard")
    except KeyboardInterrupt:
        pass
    except RAISES:
        pass


def run(plan, sim):
    worlds, ops = plan["worlds"], plan["ops"]
    solo = [core.in_child(lambda: alone(s, o)) for s, o in zip(worlds, ops)]
    rng = core.Rng("interleave", plan["schedule"])
    for s in solo:
        for op, rec in zip(ops, s):
            if rec[0]:
                sim.probe("operation-raised")
    shared = w.build_constrain(worlds[0]["constrain"]) if plan["shared"] else None

    def build(spec):
        return Actor(spec, shared if shared is not None and spec["constrain"] == worlds[0]["constrain"] else None)

    if plan["mode"] == "threads":
        for f in plan["faults"]:
            saboteur(sim, worlds[-1], f, 6000)

        def work(i):
            a = build(worlds[i])
            return [a.do(op) for op in ops[i]]

        t = Threads(rng, p=plan["p"], max_switches=3000, sim=sim)
        results, errors = t.run([lambda i=i: work(i) for i in range(len(worlds))])
        for e in errors:
            if e is not None:
                raise e
        for who, got in enumerate(results):
            for i, (op, a, b) in enumerate(zip(ops[who], solo[who], got)):
                sim.event("actor", who, "op", op, a[0])
                judge(sim, who, i, op, a, b, "threads")
        sim.probe("thread-runs")
        return
    actors = [None] * len(worlds)
    todo = [0] * len(worlds)
    faults = list(plan["faults"])
    order = []
    for _ in range(sum(len(o) for o in ops) + len(worlds)):
        open_ = [i for i in range(len(worlds)) if actors[i] is None or todo[i] < len(ops[i])]
        who = rng.choice(open_)
        if faults and rng.flip(0.4):
            order.append("fault")
            saboteur(sim, rng.choice(worlds), faults.pop(), 6000)
        if actors[who] is None:
            actors[who] = build(worlds[who])
            order.append((who, "build"))
            continue
        i = todo[who]
        todo[who] += 1
        op = ops[who][i]
        order.append((who, op[0]))
        sim.event("actor", who, "op", op)
        sim.time += 1
        got = actors[who].do(op)
        judge(sim, who, i, op, solo[who][i], got, "after %s" % order[-6:])
    sim.state(tuple(order))
    # Nothing happened to anybody after its own last operation
    for who, a in enumerate(actors):
        if a is not None and ops[who]:
            last = solo[who][-1][2]
            if not isinstance(last, str):
                d = w.difference(last, w.observe(a.W.eq), 1e-8)
                sim.check(d is None, "changed-by-others", lambda: "actor %d: %s" % (who, d))
