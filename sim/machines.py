"""Histories of operations on machines, in parallel on the real machine and on the reference model"""
import copy
import math

import numpy as np

from . import world as w

KINDS = ("coil", "shaped", "fil", "multi")


def gen_any(rng, n=None, kinds=KINDS, circuits=True, sol=True, ring=1.05):
    """A machine of any coils around the domain, at least 0.35 apart"""
    n = n or rng.choice([1, 2, 3, 4, 5, 7])
    coils, used = [], []
    for i in range(n):
        for _ in range(60):
            a = rng.uni(0, 2 * math.pi)
            r, z = round(1.4 + ring * math.cos(a), 4), round(1.6 * math.sin(a), 4)
            if r > 0.45 and abs(z) > 0.25 and all(abs(r - x) + abs(abs(z) - abs(y)) > 0.4 for x, y in used):
                break
        else:
            continue
        used.append((r, z))
        k = rng.choice(["one", "one", "one"] + (["circuit", "mirror"] if circuits else []) + (["sol"] if sol else []))
        if k == "one":
            c = w.gen_coil(rng, r, z, kinds)
        elif k == "mirror":
            c = {"k": "mirror", "R": r, "Z": abs(z), "turns": rng.choice([1, 4, 12]), "symmetric": rng.flip()}
        elif k == "sol":
            c = {"k": "sol", "Rs": round(0.05 + 0.01 * i, 4), "Zmin": rng.uni(-1.0, -0.5), "Zmax": rng.uni(0.5, 1.0), "Ns": rng.choice([2, 3, 10])}
        else:
            inner = [k for k in kinds if k != "multi"]
            members = [["a", w.gen_coil(rng, r, z, inner), rng.choice([1.0, -2.0, 0.5])], ["b", w.gen_coil(rng, r, -z, inner), rng.choice([1.0, -1.0, 0.0, 0.25])]]
            # More coils in series further out, connected either way round
            for j in range(rng.choice([0, 0, 0, 1, 2])):
                members.append(["m%d" % j, w.gen_coil(rng, round(2.9 + 0.45 * j, 4), round(0.6 * i - 1.5 + 0.05 * j, 4), inner), rng.choice([1.0, -1.0, -0.5, 3.0])])
            if rng.flip(0.3):
                members.reverse()
            c = {"k": "circuit", "coils": members}
        c["I"] = rng.choice([0.0, rng.uni(-3e4, 3e4, 1), rng.uni(-3e4, 3e4, 1)])
        c["control"] = rng.flip(0.6)
        coils.append([rng.choice(["PF", "c", "X "]) + "%d" % i, c])
    return {"coils": coils}


def gen_point(rng):
    return [rng.uni(0.5, 1.8), rng.uni(-0.85, 0.85)]


def gen_change(rng):
    """One change of the machine"""
    k = rng.choice(["current", "current", "control", "R", "Z", "R", "Z", "adjust", "set", "turns", "copy"])
    pick, sub = rng.uni(0, 1), rng.uni(0, 1)
    if k == "current":
        return [k, pick, rng.choice([0.0, rng.uni(-4e4, 4e4, 2), 1e-3])]
    if k in ("R", "Z"):
        return [k, pick, sub, rng.uni(-0.08, 0.08)]
    if k in ("adjust", "set"):
        return [k, [rng.uni(-2e4, 2e4, 2) for _ in range(8)]]
    if k == "turns":
        return [k, pick, sub, rng.choice([1, 2, 7, 30])]
    return [k, pick]


class Pair:
    """The real machine and its reference"""

    def __init__(self, spec, sim):
        self.spec = spec
        self.sim = sim
        self.real = w.build_machine(spec)
        self.ref = w.RefMachine(copy.deepcopy(spec["coils"]))
        self.control = [c.get("control", True) for _, c in spec["coils"]]
        self.left = []  # abandoned copies, which must not change any more
        self.moved = False

    def single(self, pick, sub):
        """A coil which stands alone or is part of a circuit: (real, reference)"""
        i = min(int(pick * len(self.real.coils)), len(self.real.coils) - 1)
        r, s = self.real.coils[i][1], self.ref.src[i][1]
        if isinstance(s, w.RefCircuit):
            j = min(int(sub * len(s.members)), len(s.members) - 1)
            label = s.members[j][0]
            return r[label], s.members[j][1]
        return r, s

    def apply(self, op):
        """Returns True if the positions changed"""
        k = op[0]
        self.sim.event("change", *op[:3])
        n = len(self.real.coils)
        if k == "current":
            i = min(int(op[1] * n), n - 1)
            self.real[self.real.coils[i][0]].current = op[2]
            self.ref.src[i][1].I = op[2]
        elif k == "control":
            i = min(int(op[1] * n), n - 1)
            self.control[i] = not self.control[i]
            self.real.coils[i][1].control = self.control[i]
        elif k in ("R", "Z"):
            r, s = self.single(op[1], op[2])
            if s.spec["k"] == "sol":
                return False
            new = getattr(r, k) + op[3]
            setattr(r, k, new)
            self.sim.check(getattr(r, k) == new, "position-readback", lambda: "%s set to %r, is %r" % (k, new, getattr(r, k)))
            setattr(s, "d" + k, getattr(s, "d" + k) + op[3])
            self.moved = True
            return True
        elif k in ("adjust", "set"):
            on = [s for (_, s), c in zip(self.ref.src, self.control) if c]
            v = op[1][:len(on)]
            on = on[:len(v)]
            if k == "adjust":
                if len(v) < sum(self.control):
                    return False
                self.real.controlAdjust(np.array(v))
                for s, x in zip(on, v):
                    s.I += x
            else:
                if len(v) < sum(self.control):
                    return False
                self.real.setControlCurrents(v)
                for s, x in zip(on, v):
                    s.I = x
        elif k == "turns":
            r, s = self.single(op[1], op[2])
            if s.spec["k"] in ("sol", "multi"):
                return False
            old = s.total_turns
            r.turns = op[3]
            s.base = [(a, b, x * op[3] / old) for a, b, x in s.base]
            self.moved = True
            return True
        elif k == "copy":
            old = self.real
            self.real = copy.deepcopy(old)
            if op[1] < 0.5:
                old, self.real = self.real, old  # go on with the original
            self.left.append((old, w.machine_state(old)))
        return False

    def check_left(self):
        for m, state in self.left:
            d = w.difference(state, w.machine_state(m))
            self.sim.check(d is None, "copy-not-independent", lambda: d)

    def check_state(self):
        """Currents and switches as last set, wherever they can be read"""
        sim = self.sim
        cur = self.real.getCurrents()
        for (label, c), (_, s), on in zip(self.real.coils, self.ref.src, self.control):
            sim.check(close(c.current, s.I) and close(cur[label], s.I), "current-readback", lambda: "%s: %r, expected %r" % (label, c.current, s.I))
            sim.check(bool(c.control) == on, "control-readback", label)
            if isinstance(s, w.RefCircuit):
                for name, m, mult in c.coils:
                    sim.check(close(m.current, s.I * mult), "circuit-current", lambda: "%s/%s: %r, expected %r" % (label, name, m.current, s.I * mult))
        want = [s.I for (_, s), on in zip(self.ref.src, self.control) if on]
        got = self.real.controlCurrents()
        sim.check(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)), "control-currents", lambda: "%s expected %s" % (got, want))

    def fresh(self):
        """A new machine built as the present one should be"""
        spec = copy.deepcopy(self.spec)
        for (label, c), (_, s) in zip(spec["coils"], self.ref.src):
            c["I"] = s.I
            if isinstance(s, w.RefCircuit):
                if c["k"] == "mirror":
                    low = dict(k="coil", R=c["R"], Z=-c["Z"])
                    c.update(k="circuit", coils=[["U", dict(low, Z=c["Z"]), 1.0], ["L", low, s.members[1][2]]])
                for m, (_, src, _) in zip(c["coils"], s.members):
                    place(m[1], src)
            else:
                place(c, s)
        return w.build_machine(spec)

    def loops(self):
        return self.ref.all_loops()

    def far(self, points, d=0.3):
        """Those points which are away from every conductor"""
        L = np.array([(r, z) for r, z, _ in self.loops()])
        return [p for p in points if np.min(np.hypot(L[:, 0] - p[0], L[:, 1] - p[1])) > d]


def place(c, src):
    k = c["k"]
    if k != "sol" and k != "multi":
        t = src.total_turns
        c["turns"] = int(round(t))
    dR, dZ = src.dR, src.dZ
    if k == "coil":
        c["R"], c["Z"] = c["R"] + dR, c["Z"] + dZ
    elif k == "fil":
        c["Rfil"], c["Zfil"] = [x + dR for x in c["Rfil"]], [x + dZ for x in c["Zfil"]]
    elif k == "multi":
        if isinstance(c["R"], list):
            c["R"], c["Z"] = [x + dR for x in c["R"]], [x + dZ for x in c["Z"]]
        else:
            c["R"], c["Z"] = c["R"] + dR, c["Z"] + dZ
    if c.get("shape"):
        c["shape"] = [[r + dR, z + dZ] for r, z in c["shape"]]


def close(a, b, tol=1e-12):
    return abs(a - b) <= tol * max(abs(a), abs(b))


def tolerance(ref, what):
    """Accuracy of the code's loop fields and of its integration over coil shapes, relative to the sum of the parts"""
    t = 1e-9 if what == "psi" else 3e-3
    for _, s in ref.src:
        for src in [s] if isinstance(s, w.RefSource) else [m for _, m, _ in s.members]:
            if src.spec["k"] == "shaped":
                t = max(t, 2e-2 if src.spec.get("npoints", 6) == 1 else 4e-3)
    return t
