"""P13: coil forces follow from the other currents and leave the machine unchanged"""
import copy

import numpy as np

from . import machines as mc
from . import world as w
from .sched import CALL_EXC, LINE_EXC, LineTracer

RUNS = {"quick": 1600, "thorough": 50000}
SHRINK = ["ops"]
RULE = "A plan is a machine and a history of changes and force calculations (of the machine alone, with an equilibrium, of one coil), each possibly attempted first " \
       "with a field query that fails or is interrupted; forces are compared with the reference model and with the same coils wired and ordered differently."
STATE_MEASURE = "distinct (way of asking, kinds of coils, fault and field query at which it fired) signatures"
TIME_UNIT = "operations and field queries"
REAL = ["freegs (machine, coils, equilibrium)"]
STUB = ["wrappers of the field queries which fail at the planned call"]
ASSUMPTIONS = ["interrupts arrive while a field is being evaluated", "mirrored or reversed multi-point coils are excluded (their mirror image is part of the same coil)",
               "forces on the solenoid are documented as not implemented"]

EXC = CALL_EXC


def gen(rng, tier):
    plan = {"machine": mc.gen_any(rng), "plasma": [rng.uni(0.7, 1.4), rng.uni(-0.4, 0.4), rng.uni(0.2, 0.5), rng.choice([0.0, rng.uni(-0.3, 0.3)])],
            "grid": w.gen_grid(rng, allow33=False)}
    # The plasma field is needed at the coils, so the domain contains some of them
    plan["grid"].update(nx=17, ny=17, Rmin=0.1, Rmax=2.6, Zmin=-1.8, Zmax=1.8)
    for _, c in plan["machine"]["coils"]:
        for s in [c] + [m[1] for m in c.get("coils", [])]:
            s.pop("mirror", None)
            s.pop("polarity", None)
    ops = []
    for _ in range(rng.choice([1, 3, 6])):
        if rng.flip(0.4):
            ops.append(mc.gen_change(rng))
        else:
            ops.append(gen_force(rng))
    ops.append(gen_force(rng))
    plan["ops"] = ops
    plan["order"] = rng.randrange(1 << 30)
    return plan


def gen_force(rng):
    fault = None
    if rng.flip(0.5):
        fault = [rng.choice(["fail", "fail", "line"]), rng.choice([1, 1, 2, 3, 4, 5, 7, 10]), rng.choice(sorted(EXC)), rng.uni(0, 1)]
    return ["forces", rng.choice(["machine", "machine", "eq", "eq", "given", "coil", "print"]), rng.uni(0, 1), fault]


class Field:
    """Wraps the field queries of an object while forces are calculated"""

    def __init__(self, obj, fault, sim):
        self.obj, self.fault, self.sim = obj, fault, sim
        self.n = 0
        self.fired = None
        for name in ("Br", "Bz"):
            setattr(obj, name, self.wrap(getattr(obj, name), name))

    def wrap(self, f, name):
        def g(*a, **k):
            self.n += 1
            hit = self.fault is not None and self.n == self.fault[1] and self.fired is None
            if hit and self.fault[0] == "fail":
                self.fired = EXC[self.fault[2]]("planned")
                self.sim.fault("field-" + self.fault[2])
                raise self.fired
            if hit:
                exc = LINE_EXC.get(self.fault[2], KeyboardInterrupt)
                with LineTracer(1 + int(self.fault[3] * 20), exc, self.sim) as t:
                    try:
                        return f(*a, **k)
                    finally:
                        if t.fired:
                            self.fired = exc
            return f(*a, **k)

        return g

    def remove(self):
        for name in ("Br", "Bz"):
            delattr(self.obj, name)


def singles(P):
    """(path, real coil, reference, amp-turns) of each coil which is not a solenoid"""
    out = []
    for (label, c), (_, s) in zip(P.real.coils, P.ref.src):
        if isinstance(s, w.RefCircuit):
            for (name, m, mult), (_, src, _) in zip(c.coils, s.members):
                src.I = s.I * mult
                out.append(((label, name), m, src))
        elif s.spec["k"] != "sol":
            out.append(((label,), c, s))
    return out


def hoop(path, coil, src):
    """Self force of a coil, from its specification"""
    I = src.I * src.total_turns
    if I == 0.0:
        return 0.0
    s = src.spec
    if s["k"] in ("shaped", "fil") and s.get("shape"):
        area = w.poly_area(s["shape"])
    elif s["k"] == "fil":
        r, z = s["Rfil"], s["Zfil"]
        area = (max(r) - min(r)) * (max(z) - min(z))
    elif "area" in s:
        area = s["area"]
    else:
        area = abs(I) / s.get("jmax", 3.5e9)
    a = np.sqrt(area / np.pi)
    return w.MU0 * I ** 2 / (4 * np.pi * coil.R) * (np.log(8 * coil.R / a) - 1 + 0.25)


def reference(P, eq):
    out = {}
    items = singles(P)
    sources = [(p, s) for p, _, s in items] + [((label,), s) for label, s in P.ref.src if isinstance(s, w.RefSource) and s.spec["k"] == "sol"]
    for path, c, src in items:
        B, mag = {}, 0.0
        for what in ("Br", "Bz"):
            B[what] = 0.0
            for p, s in sources:
                if p != path:
                    t, m = s.field(what, np.array(float(c.R)), np.array(float(c.Z)))
                    B[what] += float(t)
                    mag += float(m)
            if eq is not None:
                b = float(np.squeeze({"Br": eq.plasmaBr, "Bz": eq.plasmaBz}[what](c.R, c.Z)))
                B[what] += b
                mag += abs(b)
        I = src.I * src.total_turns
        L = 2 * np.pi * c.R
        h = hoop(path, c, src)
        out[path] = (np.array([(I * B["Bz"] + h) * L, -I * B["Br"] * L]), abs(I) * mag * L, abs(h) * L)
    return out


def flatten(forces):
    out = {}
    for k, v in forces.items():
        if isinstance(v, dict):
            for name, f in v.items():
                out[(k, name)] = np.asarray(f, dtype=float)
        else:
            out[(k,)] = np.asarray(v, dtype=float)
    return out


def rewired(P, order):
    """The same coils, each on its own supply, in another order"""
    from .core import Rng

    spec = copy.deepcopy(P.spec)
    fresh = P.fresh()
    from freegs.machine import Machine

    coils = []
    for (label, c), (_, s) in zip(fresh.coils, P.ref.src):
        if isinstance(s, w.RefCircuit):
            coils += [("%s/%s" % (label, name), m) for name, m, _ in c.coils]
        else:
            coils.append((label, c))
    Rng(order).shuffle(coils)
    return Machine(coils)


def run(plan, sim):
    if not plan["machine"]["coils"]:
        sim.skip("no coils fit")
    P = mc.Pair(plan["machine"], sim)
    kinds = tuple(sorted({c["k"] for _, c in plan["machine"]["coils"]}))
    for op in plan["ops"]:
        sim.time += 1
        if op[0] != "forces":
            P.apply(op)
            continue
        _, how, pick, fault = op
        eq = None
        if how in ("eq", "given", "print"):
            g = w.build_eq(plan["grid"], P.real)
            r0, z0, wid, amp = plan["plasma"]
            eq = w.build_eq(plan["grid"], P.real, psi=amp * np.exp(-((g.R - r0) ** 2 + (g.Z - z0) ** 2) / wid ** 2))
        items = singles(P)
        one = items[min(int(pick * len(items)), len(items) - 1)] if items else None
        if how == "coil" and one is None:
            continue

        def ask():
            if how == "machine":
                return flatten(P.real.getForces())
            if how == "eq":
                return flatten(eq.getForces())
            if how == "given":
                return flatten(P.real.getForces(eq))
            if how == "print":
                with w.quiet():
                    eq.printForces()
                return None
            return {one[0]: np.asarray(one[1].getForces(P.real))}

        before = w.machine_state(P.real)
        if fault is not None:
            f = Field(eq if eq is not None else P.real, fault, sim)
            err = None
            try:
                ask()
            except BaseException as e:
                err = e
            finally:
                f.remove()
            sim.time += f.n
            if f.fired is not None:
                ok = isinstance(err, f.fired) if isinstance(f.fired, type) else err is f.fired
                sim.check(ok, "failure-swallowed", lambda: "planned %r, getForces gave %r" % (f.fired, err))
                sim.state(how, fault[0], fault[1], fault[2])
            elif err is not None:
                raise err
            d = w.difference(before, w.machine_state(P.real))
            sim.check(d is None, "currents-not-restored", lambda: "%s with %s: %s" % (how, fault, d))
        got = ask()
        d = w.difference(before, w.machine_state(P.real))
        sim.check(d is None, "machine-changed", lambda: "%s: %s" % (how, d))
        P.check_state()
        sim.state(how, kinds)
        if got is None:
            continue
        want = reference(P, eq)
        expect = [one[0]] if how == "coil" else sorted(want)
        have = sorted(p for p in got if not (len(p) == 1 and got[p].size == 0))
        sim.check(have == sorted(expect), "coils-missing", lambda: "forces for %s, expected %s" % (have, expect))
        tol = max(mc.tolerance(P.ref, "Br"), 5e-3)
        for p in expect:
            F, mag, self_force = want[p]
            if not np.isfinite(self_force):
                continue  # a coil of two filaments side by side has no area
            sim.check(bool(np.all(np.abs(got[p] - F) <= tol * mag + 1e-6 * self_force + 1e-9)), "wrong-force", lambda: "%s on %s: %s, expected %s" % (how, p, got[p], F))
        if how == "machine":
            # Wiring and order do not matter
            other = rewired(P, plan["order"]).getForces()
            for p in expect:
                F, mag, self_force = want[p]
                if not np.isfinite(self_force):
                    continue
                o = np.asarray(other["/".join(p)])
                sim.check(bool(np.all(np.abs(o - got[p]) <= 1e-7 * mag + 1e-9 * self_force + 1e-9)), "depends-on-wiring", lambda: "%s: %s, alone %s" % (p, got[p], o))
            if all(c["k"] in ("coil", "mirror") for _, c in plan["machine"]["coils"]):
                total = sum(got[p][1] for p in expect)
                scale = sum(want[p][1] for p in expect)
                sim.check(abs(total) <= 5e-3 * scale + 1e-9, "action-reaction", lambda: "vertical forces sum to %g of %g" % (total, scale))
                sim.probe("action-reaction")
        sim.event(how, w.digest({str(k): v for k, v in got.items()}))
    P.check_left()
