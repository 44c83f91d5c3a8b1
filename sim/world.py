"""
Worlds: JSON descriptions of machines and equilibria, builders for the real objects, and an independent
reference model of every current source (sums of analytic loop fields; no freegs code is used by the model).
"""
import copy
import math

import numpy as np
from scipy.special import ellipe, ellipk

MU0 = 4e-7 * np.pi


# ---------------------------------------------------------------------------------------- reference model
def loop_psi(a, zc, R, Z):
    """Flux per radian of a unit loop of radius a at height zc"""
    z = Z - zc
    m = 4.0 * R * a / ((R + a) ** 2 + z ** 2)
    k = np.sqrt(m)
    return MU0 / (2 * np.pi) * np.sqrt(R * a) * ((2 - m) * ellipk(m) - 2 * ellipe(m)) / k


def loop_Br(a, zc, R, Z):
    z = Z - zc
    q = (a + R) ** 2 + z ** 2
    m = 4.0 * R * a / q
    return MU0 / (2 * np.pi) * z / (R * np.sqrt(q)) * (-ellipk(m) + (a * a + R * R + z * z) / ((a - R) ** 2 + z * z) * ellipe(m))


def loop_Bz(a, zc, R, Z):
    z = Z - zc
    q = (a + R) ** 2 + z ** 2
    m = 4.0 * R * a / q
    return MU0 / (2 * np.pi) / np.sqrt(q) * (ellipk(m) + (a * a - R * R - z * z) / ((a - R) ** 2 + z * z) * ellipe(m))


LOOP = {"psi": loop_psi, "Br": loop_Br, "Bz": loop_Bz}


def poly_area(shape):
    n = len(shape)
    return 0.5 * abs(sum(shape[i][0] * shape[(i + 1) % n][1] - shape[(i + 1) % n][0] * shape[i][1] for i in range(n)))


def poly_loops(shape, depth=3):
    """Convex polygon as many small loops of total weight one"""
    tris = [(shape[0], shape[i], shape[i + 1]) for i in range(1, len(shape) - 1)]
    for _ in range(depth):
        new = []
        for a, b, c in tris:
            ab = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            bc = ((b[0] + c[0]) / 2, (b[1] + c[1]) / 2)
            ca = ((c[0] + a[0]) / 2, (c[1] + a[1]) / 2)
            new += [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)]
        tris = new
    loops = []
    for t in tris:
        loops.append((sum(p[0] for p in t) / 3, sum(p[1] for p in t) / 3, poly_area(t)))
    tot = sum(w for _, _, w in loops)
    return [(r, z, w / tot) for r, z, w in loops]


class RefSource:
    """Reference model of one coil (not a circuit)"""

    def __init__(self, spec):
        self.spec = spec
        k = spec["k"]
        self.I = spec.get("I", 0.0)
        self.dR = self.dZ = 0.0
        turns = spec.get("turns", 1)
        if k == "coil":
            self.base = [(spec["R"], spec["Z"], float(turns))]
        elif k == "shaped":
            self.base = [(r, z, w * turns) for r, z, w in poly_loops(spec["shape"])]
        elif k == "fil":
            n = len(spec["Rfil"])
            self.base = [(r, z, turns / n) for r, z in zip(spec["Rfil"], spec["Zfil"])]
        elif k == "sol":
            self.base = [(spec["Rs"], float(z), 1.0) for z in np.linspace(spec["Zmin"], spec["Zmax"], spec["Ns"])]
        elif k == "multi":
            if isinstance(spec["R"], list):
                self.base = [(r, z, 1.0) for r, z in zip(spec["R"], spec["Z"])]
            else:
                self.base = [(spec["R"], spec["Z"], float(turns))]
        else:
            raise ValueError(k)

    @property
    def total_turns(self):
        return sum(w for _, _, w in self.base)

    def loops(self):
        """(R, Z, amp-turns per ampere)"""
        out = [(r + self.dR, z + self.dZ, w) for r, z, w in self.base]
        if self.spec["k"] == "multi":
            pol = self.spec.get("polarity", [1.0, 1.0])
            up = [(r, z, w * pol[0]) for r, z, w in out]
            if self.spec.get("mirror"):
                up += [(r, -z, w * pol[1]) for r, z, w in out]
            out = up
        return out

    def field(self, what, R, Z):
        f = LOOP[what]
        total, mag = 0.0, 0.0
        for r, z, w in self.loops():
            v = f(r, z, R, Z) * w
            total = total + v
            mag = mag + abs(v)
        return total * self.I, mag * abs(self.I)


class RefCircuit:
    def __init__(self, spec):
        self.spec = spec
        if spec["k"] == "mirror":
            base = {"k": "coil", "R": spec["R"], "Z": spec["Z"], "turns": spec.get("turns", 1)}
            low = dict(base, Z=-spec["Z"])
            members = [["U", base, 1.0], ["L", low, 1.0 if spec.get("symmetric", True) else -1.0]]
        else:
            members = spec["coils"]
        self.members = [(label, RefSource(s), m) for label, s, m in members]
        self.I = spec.get("I", 0.0)

    def field(self, what, R, Z):
        total, mag = 0.0, 0.0
        for _, src, m in self.members:
            src.I = self.I * m
            t, g = src.field(what, R, Z)
            total, mag = total + t, mag + g
        return total, mag


def ref_source(spec):
    return RefCircuit(spec) if spec["k"] in ("circuit", "mirror") else RefSource(spec)


class RefMachine:
    def __init__(self, specs):
        self.src = [(label, ref_source(s)) for label, s in specs]

    def __getitem__(self, label):
        return dict(self.src)[label]

    def field(self, what, R, Z):
        total, mag = np.zeros(np.shape(R)), np.zeros(np.shape(R))
        for _, s in self.src:
            t, g = s.field(what, R, Z)
            total, mag = total + t, mag + g
        return total, mag

    def all_loops(self):
        out = []
        for label, s in self.src:
            members = [(label, s)] if isinstance(s, RefSource) else [(l, m) for l, m, _ in s.members]
            for _, m in members:
                out += m.loops()
        return out


# ------------------------------------------------------------------------------------------------ builders
def build_coil(spec):
    from freegs import machine as M
    from freegs.coil import AreaCurrentLimit

    k = spec["k"]
    kw = {"current": spec.get("I", 0.0), "control": spec.get("control", True)}
    if k != "sol" and k != "circuit":
        kw["turns"] = spec.get("turns", 1)
    if k == "coil":
        if "area" in spec:
            kw["area"] = spec["area"]
        elif "jmax" in spec:
            kw["area"] = AreaCurrentLimit(spec["jmax"])
        return M.Coil(spec["R"], spec["Z"], **kw)
    if k == "shaped":
        return M.ShapedCoil([tuple(p) for p in spec["shape"]], npoints=spec.get("npoints", 6), **kw)
    if k == "fil":
        shape = [tuple(p) for p in spec["shape"]] if spec.get("shape") else None
        return M.FilamentCoil(list(spec["Rfil"]), list(spec["Zfil"]), shape=shape, **kw)
    if k == "sol":
        return M.Solenoid(spec["Rs"], spec["Zmin"], spec["Zmax"], spec["Ns"], **kw)
    if k == "multi":
        return M.MultiCoil(copy.copy(spec["R"]), copy.copy(spec["Z"]), mirror=spec.get("mirror", False),
                           polarity=list(spec.get("polarity", [1.0, 1.0])), **kw)
    if k == "mirror":
        return M.MirroredCoil(spec["R"], spec["Z"], symmetric=spec.get("symmetric", True), **kw)
    if k == "circuit":
        return M.Circuit([(label, build_coil(s), m) for label, s, m in spec["coils"]], **kw)
    raise ValueError(k)


def build_sensor(s):
    from freegs import machine as M

    if s["k"] == "rog":
        return M.RogowskiSensor(list(s["R"]), list(s["Z"]), name=s.get("name"), status=s.get("status", True))
    if s["k"] == "bp":
        return M.PoloidalFieldSensor(s["R"], s["Z"], s["theta"], name=s.get("name"), status=s.get("status", True))
    if s["k"] == "fl":
        return M.FluxLoopSensor(s["R"], s["Z"], name=s.get("name"), status=s.get("status", True))
    raise ValueError(s["k"])


def build_machine(spec):
    from freegs import machine as M

    wall = None
    if spec.get("wall"):
        wall = M.Wall(list(spec["wall"][0]), list(spec["wall"][1]))
    sensors = [build_sensor(s) for s in spec["sensors"]] if spec.get("sensors") is not None else None
    kw = {}
    if "R0" in spec:
        kw["R0"] = spec["R0"]
    return M.Machine([(label, build_coil(c)) for label, c in spec["coils"]], wall, sensors, **kw)


def build_eq(spec, tok, **kw):
    import freegs
    from freegs import boundary

    return freegs.Equilibrium(
        tokamak=tok, Rmin=spec["Rmin"], Rmax=spec["Rmax"], Zmin=spec["Zmin"], Zmax=spec["Zmax"], nx=spec["nx"], ny=spec["ny"],
        boundary=getattr(boundary, spec.get("boundary", "freeBoundary")), order=spec.get("order", 4),
        check_limited=spec.get("check_limited", False), **kw)


def build_profiles(spec, eq):
    from freegs import jtor

    k = spec["k"]
    if k == "paxis":
        return jtor.ConstrainPaxisIp(eq, spec["paxis"], spec["Ip"], spec["fvac"], alpha_m=spec["am"], alpha_n=spec["an"], Raxis=spec["Raxis"])
    if k == "betap":
        return jtor.ConstrainBetapIp(eq, spec["betap"], spec["Ip"], spec["fvac"], alpha_m=spec["am"], alpha_n=spec["an"], Raxis=spec["Raxis"])
    if k == "func":
        p0, f0, e = spec["p0"], spec["f0"], spec["e"]

        def pprime(pn):
            return p0 * (1.0 - np.clip(pn, 0.0, 1.0)) ** e

        def ffprime(pn):
            return f0 * (1.0 - np.clip(pn, 0.0, 1.0)) ** e

        return jtor.ProfilesPprimeFfprime(pprime, ffprime, spec["fvac"])
    raise ValueError(k)


def build_constrain(spec):
    from freegs import control

    lims = [tuple(x) for x in spec["lims"]] if spec.get("lims") else None
    return control.constrain(
        xpoints=[tuple(x) for x in spec.get("xpoints", [])], isoflux=[tuple(x) for x in spec.get("isoflux", [])],
        psivals=[tuple(x) for x in spec.get("psivals", [])], gamma=spec.get("gamma", 1e-12), current_lims=lims,
        max_total_current=spec.get("maxtot"))


# ---------------------------------------------------------------------------------------------- generators
def rect(r, z, w, h):
    return [[round(r - w / 2, 6), round(z - h / 2, 6)], [round(r - w / 2, 6), round(z + h / 2, 6)],
            [round(r + w / 2, 6), round(z + h / 2, 6)], [round(r + w / 2, 6), round(z - h / 2, 6)]]


def gen_shape(rng, r, z):
    w, h = rng.uni(0.04, 0.12), rng.uni(0.04, 0.12)
    kind = rng.choice(["rect", "rect", "tri", "skew", "pent"])
    if kind == "rect":
        s = rect(r, z, w, h)
    elif kind == "tri":
        s = [[r - w / 2, z - h / 2], [r, z + h / 2], [r + w / 2, z - h / 2]]
    elif kind == "skew":
        s = [[r - w / 2, z - h / 2], [r - w / 4, z + h / 2], [r + w / 2, z + h / 2], [r + w / 4, z - h / 2]]
    else:
        s = [[r + w / 2 * math.sin(2 * math.pi * i / 5), z + h / 2 * math.cos(2 * math.pi * i / 5)] for i in range(5)]
    if rng.flip(0.3):
        s = s[::-1]
    return [[round(p[0], 6), round(p[1], 6)] for p in s]


def gen_coil(rng, r, z, kinds=("coil", "shaped", "fil"), turns=True):
    k = rng.choice(list(kinds))
    spec = {"k": k, "I": 0.0, "control": True, "turns": rng.choice([1, 1, 2, 5, 10, 37]) if turns else 1}
    if k == "coil":
        spec.update(R=r, Z=z)
        if rng.flip(0.3):
            spec["area"] = rng.uni(0.001, 0.02)
        elif rng.flip(0.3):
            spec["jmax"] = rng.choice([1e8, 3.5e9])
    elif k == "shaped":
        spec.update(shape=gen_shape(rng, r, z), npoints=rng.choice([1, 3, 6, 6]))
    elif k == "fil":
        n = rng.choice([1, 2, 4, 7, 12])
        spec.update(Rfil=[rng.uni(r - 0.04, r + 0.04) for _ in range(n)], Zfil=[rng.uni(z - 0.04, z + 0.04) for _ in range(n)])
        if rng.flip(0.6) or n < 2:
            spec["shape"] = rect(r, z, 0.1, 0.1)
    elif k == "multi":
        if rng.flip(0.4):
            spec.update(R=r, Z=z)
        else:
            n = rng.choice([1, 2, 5])
            spec.update(R=[rng.uni(r - 0.04, r + 0.04) for _ in range(n)], Z=[rng.uni(z - 0.04, z + 0.04) for _ in range(n)])
        spec["mirror"] = rng.flip(0.5)
        spec["polarity"] = rng.choice([[1.0, 1.0], [1.0, -1.0], [-1.0, 1.0]])
    return spec


WALLS = [
    [[0.75, 0.75, 1.5, 1.8, 1.8, 1.5], [-0.85, 0.85, 0.85, 0.25, -0.25, -0.85]],
    [[0.6, 0.6, 1.4, 1.85, 1.85, 1.4, 0.6], [-0.9, 0.9, 0.9, 0.3, -0.3, -0.9, -0.9]],
    [[0.3, 0.3, 1.9, 1.9], [-0.95, 0.95, 0.95, -0.95]],
]


def labels(rng, n):
    pool = ["P1L", "P1U", "P2L", "P2U", "C 1", "D-coil", "zeta", "A", "a", "PF_10", "PF_2", "\u03b2coil", "x.y", "Solenoid", "coils", "wall_R"]
    rng.shuffle(pool)
    return pool[:n]


def gen_machine(rng, kinds=("coil", "shaped", "fil"), circuits=True, solenoid=True, wall=None, extra=True, odd_labels=False, turns=True):
    """A machine with at least three control degrees of freedom, on which diverted plasmas can be made"""
    j = 0.03
    p1l = (rng.uni(1.0 - j, 1.0 + j), rng.uni(-1.1 - j, -1.1 + j))
    p1u = (rng.uni(1.0 - j, 1.0 + j), rng.uni(1.1 - j, 1.1 + j))
    p2l = (rng.uni(1.75 - j, 1.75 + j), rng.uni(-0.6 - j, -0.6 + j))
    p2u = (rng.uni(1.75 - j, 1.75 + j), rng.uni(0.6 - j, 0.6 + j))
    coils = []
    for name, (lo, up) in (("P1", (p1l, p1u)), ("P2", (p2l, p2u))):
        style = rng.choice(["pair", "pair", "circuit"]) if circuits else "pair"
        if style == "pair":
            coils.append([name + "L", gen_coil(rng, lo[0], lo[1], kinds, turns)])
            coils.append([name + "U", gen_coil(rng, up[0], up[1], kinds, turns)])
        else:
            t = rng.choice([1, 3, 12]) if turns else 1
            mult = rng.choice([(1.0, 1.0), (-1.0, -1.0), (2.0, 2.0), (0.5, 0.5)])
            members = [["U", {"k": "coil", "R": lo[0], "Z": lo[1], "turns": t}, mult[0]],
                       ["L", {"k": "coil", "R": lo[0], "Z": -lo[1], "turns": t}, mult[1]]]
            if rng.flip(0.3):
                members.insert(0, ["off", {"k": "coil", "R": 1.9, "Z": 1.3, "turns": 1}, 0.0])
            coils.append([name, {"k": "circuit", "coils": members, "I": 0.0, "control": True}])
            # A separate up-down antisymmetric pair keeps the plasma controllable
            rq, zq = (0.5, 1.3) if name == "P1" else (2.1, 0.8)
            coils.append(["Q" + name, {"k": "circuit", "I": 0.0, "control": True,
                                       "coils": [["t", {"k": "coil", "R": rq, "Z": zq, "turns": 1}, 1.0],
                                                 ["b", {"k": "coil", "R": rq, "Z": -zq, "turns": 1}, -1.0]]}])
    if solenoid and rng.flip(0.5):
        coils.append(["Sol", {"k": "sol", "Rs": 0.06, "Zmin": rng.uni(-0.9, -0.6), "Zmax": rng.uni(0.6, 0.9), "Ns": rng.choice([5, 12, 20]),
                              "I": rng.uni(-2e3, 2e3, 1), "control": False}])
    if extra and rng.flip(0.5):
        c = gen_coil(rng, rng.uni(2.1, 2.3), rng.uni(-1.2, 1.2), kinds, turns)
        c["control"] = False
        c["I"] = rng.uni(-1e3, 1e3, 1)
        coils.append(["X", c])
    if rng.flip(0.5):
        rng.shuffle(coils)
    if odd_labels:
        for item, name in zip(coils, labels(rng, len(coils))):
            item[0] = name
    spec = {"coils": coils, "R0": rng.choice([1.0, 1.0, 0.85, 1.7])}
    if wall is None:
        wall = rng.flip(0.7)
    if wall:
        spec["wall"] = rng.choice(WALLS)
    return spec


def gen_grid(rng, small=True, allow33=True):
    sizes = [(17, 17), (17, 17), (17, 17), (17, 33), (33, 17)] + ([(33, 33)] if allow33 else [])
    nx, ny = rng.choice(sizes)
    return {"Rmin": rng.choice([0.1, 0.12, 0.2]), "Rmax": rng.choice([2.0, 2.05, 1.95]), "Zmin": rng.choice([-1.0, -1.0, -1.1]),
            "Zmax": rng.choice([1.0, 1.0, 1.05]), "nx": nx, "ny": ny, "order": rng.choice([4, 4, 2]), "boundary": "freeBoundary"}


def gen_profiles(rng, kinds=("paxis", "paxis", "betap", "func")):
    k = rng.choice(list(kinds))
    if k == "func":
        return {"k": "func", "p0": rng.uni(-2e4, -5e3, 1), "f0": rng.uni(-0.4, -0.15), "e": rng.choice([1, 2]), "fvac": rng.uni(0.5, 2.0)}
    s = {"k": k, "Ip": rng.uni(1e5, 3e5, 0), "fvac": rng.uni(0.5, 2.0), "am": rng.choice([1.0, 1.0, 2.0]), "an": rng.choice([1.0, 2.0]),
         "Raxis": rng.choice([1.0, 1.0, 0.9])}
    if k == "paxis":
        s["paxis"] = rng.uni(500, 3000, 1)
    else:
        s["betap"] = rng.uni(0.1, 0.5)
    return s


def gen_xpoints(rng):
    zl, zu = rng.uni(-0.7, -0.55), rng.uni(0.6, 0.8)
    return {"xpoints": [[1.1, zl], [1.1, zu]], "isoflux": [[1.1, zl, 1.1, round(-zl, 4)]], "gamma": 1e-12}


def gen_plasma(rng, profiles=("paxis", "paxis", "betap", "func"), allow33=True, robust=False, **kw):
    """A complete world with a diverted plasma"""
    m = gen_machine(rng, **kw)
    con = gen_xpoints(rng)
    if any(c["k"] == "circuit" for _, c in m["coils"]):
        z = rng.uni(0.6, 0.7)
        con = {"xpoints": [[1.1, -z], [1.1, z]], "isoflux": [[1.1, -z, 1.1, z]], "gamma": 1e-12}
    prof = gen_profiles(rng, profiles)
    if robust and "am" in prof:
        prof.update(am=1.0, an=2.0, Raxis=1.0)
    return {"machine": m, "grid": gen_grid(rng, allow33=allow33), "profiles": prof, "constrain": con}


class Seam:
    """
    Puts the boundary condition and the linear solver of an equilibrium behind its public interfaces (the boundary
    argument and setSolver), so that they can be observed and made to fail. Shared by copies of the equilibrium.
    """

    def __init__(self, spec):
        from freegs import boundary

        self.spec = spec
        self.real_boundary = getattr(boundary, spec.get("boundary", "freeBoundary"))
        self.hook = {}  # (place, "before"/"after") -> callable
        # An equilibrium without coils on the same grid lends its solver
        from freegs.machine import Machine

        self.twin = build_eq(spec, Machine([]))

    def __deepcopy__(self, memo):
        return self

    def call(self, place, when, *args):
        f = self.hook.get((place, when))
        if f is not None:
            f(*args)

    def boundary(self, eq, J, psi):
        self.call("boundary", "before", psi)
        self.real_boundary(eq, J, psi)
        self.call("boundary", "after", psi)

    def solver(self, x, b):
        self.call("solver", "before", x)
        out = self.twin.callSolver(x, b)
        self.call("solver", "after", out)
        return out

    def build(self, tok, **kw):
        import freegs

        g = self.spec
        # The code compares with fixedBoundary itself
        b = self.real_boundary if g.get("boundary") == "fixedBoundary" else self.boundary
        eq = freegs.Equilibrium(tokamak=tok, Rmin=g["Rmin"], Rmax=g["Rmax"], Zmin=g["Zmin"], Zmax=g["Zmax"], nx=g["nx"], ny=g["ny"], boundary=b,
                                order=g.get("order", 4), check_limited=g.get("check_limited", False), **kw)
        eq.setSolver(self.solver)
        return eq


class World:
    """The real objects of a plan"""

    def __init__(self, spec, seam=False):
        self.spec = spec
        self.tok = build_machine(spec["machine"])
        if seam:
            self.seam = Seam(spec["grid"])
            self.eq = self.seam.build(self.tok)
        else:
            self.eq = build_eq(spec["grid"], self.tok)
        self.profiles = build_profiles(spec["profiles"], self.eq)
        self.constrain = build_constrain(spec["constrain"]) if spec.get("constrain") else None

    def linear(self, n=1):
        for _ in range(n):
            self.constrain(self.eq)
            self.eq.solve(self.profiles)

    def picard(self, **kw):
        import freegs

        return freegs.solve(self.eq, self.profiles, self.constrain, **kw)


# -------------------------------------------------------------------------------------------- observation
def coil_state(c):
    """Everything a user can see of a coil, as plain values"""
    name = type(c).__name__
    out = [name, float(c.current), bool(c.control)]
    if name == "Circuit":
        out.append([[label, coil_state(m), float(mult)] for label, m, mult in c.coils])
    elif name == "Solenoid":
        out += [float(c.Rs), float(c.Zsmin), float(c.Zsmax), int(c.Ns)]
    else:
        out += [float(c.R), float(c.Z), float(c.turns)]
        if hasattr(c, "shape"):
            out.append([[float(r), float(z)] for r, z in c.shape])
        if name == "ShapedCoil":
            out.append(int(c.npoints_per_triangle))
        if name == "FilamentCoil":
            out.append([[float(r), float(z)] for r, z in c.points])
        if name == "MultiCoil":
            out += [[float(x) for x in c.Rfil], [float(x) for x in c.Zfil], bool(c.mirror), [float(x) for x in c.polarity]]
    return out


def machine_state(tok):
    wall = None
    if tok.wall is not None:
        wall = [[float(x) for x in tok.wall.R], [float(x) for x in tok.wall.Z]]
    return {"coils": [[label, coil_state(c)] for label, c in tok.coils], "wall": wall}


def arr(x):
    return None if x is None else np.array(x, dtype=float)


def num(x):
    return None if x is None else float(x)


def same_array(a, b, tol=0.0):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if tol == 0.0:
        return bool(np.array_equal(a, b, equal_nan=True))
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    f = np.isfinite(a)
    if not f.any():
        return True
    scale = max(np.max(np.abs(a[f])), np.max(np.abs(b[f])), 1e-300)
    return bool(np.max(np.abs(a[f] - b[f])) <= tol * scale)


def same(a, b, tol=0.0):
    """Recursive comparison of observation trees; numbers relative to tol"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return same_array(a, b, tol)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b))


def difference(a, b, tol=0.0, path=""):
    """First path at which two observation trees differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return path + " keys"
        for k in a:
            if not same(a[k], b[k], tol):
                return difference(a[k], b[k], tol, path + "/" + str(k))
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, tol):
                return difference(x, y, tol, path + "/" + str(i))
        return None
    if same(a, b, tol):
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        return "%s: arrays differ by %g of %g" % (path, np.nanmax(np.abs(a - b)), np.nanmax(np.abs(a)))
    return "%s: %s != %s" % (path, str(a)[:200], str(b)[:200])


def observe(eq, profiles=True, deep=False):
    """What a user can see of an equilibrium"""
    rs = np.array([0.7, 1.0, 1.3, 1.55])
    zs = np.array([-0.4, 0.05, 0.3, 0.5])
    o = {
        "R": arr(eq.R), "Z": arr(eq.Z), "current": float(eq.plasmaCurrent()), "plasma_psi": arr(eq.plasma_psi), "psi": arr(eq.psi()),
        "psiRZ": arr(eq.psiRZ(rs, zs)), "plasmaBr": arr(eq.plasmaBr(rs, zs)), "plasmaBz": arr(eq.plasmaBz(rs, zs)),
        "Jtor": arr(eq.Jtor), "machine": machine_state(eq.tokamak),
        "psi_axis": num(getattr(eq, "psi_axis", None)), "psi_bndry": num(getattr(eq, "psi_bndry", None)),
        "limited": bool(eq.is_limited), "mask": arr(getattr(eq, "mask", None)),
    }
    if profiles and hasattr(eq, "_profiles"):
        pn = np.array([0.1, 0.5, 0.9])
        o["pprime"] = arr([eq.pprime(x) for x in pn])
        o["ffprime"] = arr([eq.ffprime(x) for x in pn])
        o["fvac"] = float(eq.fvac())
        if deep:
            o["pressure"] = arr([eq.pressure(x) for x in pn])
            o["fpol"] = arr([eq.fpol(x) for x in pn])
    return o


def digest(tree):
    import hashlib

    h = hashlib.sha256()

    def go(x):
        if isinstance(x, dict):
            for k in sorted(x):
                h.update(k.encode())
                go(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for y in x:
                go(y)
        elif isinstance(x, np.ndarray):
            h.update(np.ascontiguousarray(x).tobytes())
        else:
            h.update(repr(x).encode())

    go(tree)
    return h.hexdigest()[:16]


def quiet():
    """Context which swallows prints of the code under test"""
    import contextlib
    import io

    return contextlib.redirect_stdout(io.StringIO())


# ------------------------------------------------------------------------------------------ solved worlds
def gen_solved(rng, limited=None, **kw):
    """A world which is solved to convergence, optionally followed by steps as a limited plasma"""
    s = gen_plasma(rng, robust=True, **kw)
    if limited is None:
        limited = rng.flip(0.3)
    if limited and kw.get("wall", True) is not False:
        r0, r1, h = rng.uni(0.6, 0.8), rng.uni(1.3, 1.5), rng.uni(0.45, 0.85)
        s["machine"]["wall"] = rng.choice([[[r0, r0, r1, r1], [-h, h, h, -h]], [[r0, r0, 1.2, r1, r1, 1.2], [-h, h, h, h / 2, -h / 2, -h]]])
        s["limited"] = rng.choice([1, 1, 2])
    return s


def solved(spec, sim, rtol=3e-3, maxits=50, seam=False):
    """The converged World of a spec (skips the run if this fault-free set-up does not converge)"""
    W = World(spec, seam)
    with quiet():
        try:
            W.picard(maxits=maxits, rtol=rtol)
        except (RuntimeError, ValueError, AssertionError) as e:
            sim.skip("set-up did not converge: " + type(e).__name__)
    if not plasma_ok(W.eq):
        sim.skip("set-up has no plasma in the middle of the domain")
    if spec.get("limited"):
        with quiet():
            try:
                W.eq.check_limited = True
                for _ in range(spec["limited"]):
                    W.eq.solve(W.profiles)
                ok = plasma_ok(W.eq)
            except (ValueError, AssertionError):
                ok = False
        if not ok:
            # The wall cuts away too much of this plasma: use it as a diverted one
            return solved({k: v for k, v in spec.items() if k != "limited"}, sim, rtol, maxits, seam)
    sim.probe("limited" if W.eq.is_limited else "diverted")
    return W


def plasma_ok(eq):
    """There is a plasma: an axis in the middle of the domain, and at least one X-point"""
    from freegs import critical

    o, x = critical.find_critical(eq.R, eq.Z, eq.psi())
    if not (o and x and 0.5 < o[0][0] < 1.6 and abs(o[0][1]) < 0.45):
        return False
    # The boundary flux surface closes inside the domain
    th = np.linspace(0, 2 * np.pi, 72, endpoint=False)[:, None]
    f = np.linspace(0.0, 1.0, 60)[None, :]
    dr, dz = np.sin(th), np.cos(th)
    with np.errstate(divide="ignore"):
        lr = np.where(dr > 0, (eq.Rmax - o[0][0]) / dr, np.where(dr < 0, (eq.Rmin - o[0][0]) / dr, np.inf))
        lz = np.where(dz > 0, (eq.Zmax - o[0][1]) / dz, np.where(dz < 0, (eq.Zmin - o[0][1]) / dz, np.inf))
    length = np.minimum(lr, lz) * 0.97
    from scipy.interpolate import RectBivariateSpline

    g = RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], (eq.psi() - o[0][2]) / (eq.psi_bndry - o[0][2]))
    pn = g(o[0][0] + f * length * dr, o[0][1] + f * length * dz, grid=False)
    top = np.argmax(pn, axis=1)
    return bool(np.all((np.max(pn, axis=1) > 1.002) | ((top < 56) & (np.max(pn, axis=1) > 0.98))))
