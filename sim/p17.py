"""P17: showing progress does not change the result"""
import io
import sys
import warnings

import numpy as np

from . import core
from . import p05
from . import queries as qs
from . import world as w
from .sched import CALL_EXC

RUNS = {"quick": 160, "thorough": 5000}
SHRINK = ["work"]
RULE = "A plan is a nonlinear solve, a G-EQDSK read or an optimisation, executed once without display in a process of its own and once with it on a simulated display: " \
       "pauses advance a simulated clock and run read-only work of the user (queries, other plots, closing the window); the n-th pause, drawing or printing may fail or be " \
       "interrupted."
STATE_MEASURE = "distinct (operation, display options, pause number, work or fault) signatures"
TIME_UNIT = "simulated seconds of pauses"
REAL = ["freegs (solver, plotting, G-EQDSK reader, optimiser)", "matplotlib with its Agg backend"]
STUB = ["matplotlib's pause and show (simulated display and clock)", "random stream (seeded)", "files"]
ASSUMPTIONS = ["work done during a pause only reads the equilibrium"]

EXC = CALL_EXC
WORK = ["psi", "psiRZ", "Br", "Bz", "plasmaBr", "critical", "plasmaCurrent", "psi-bndry", "control", "forces", "greens", "magneticAxis", "plot", "print", "close", "figure", "separatrix",
        "pprime", "q", "clf", "save"]


def gen(rng, tier):
    kind = rng.choice(["solve", "solve", "solve", "solve", "read", "read", "optimise"])
    if kind == "optimise":
        plan = w.gen_solved(rng, limited=False, circuits=False, solenoid=False, extra=False, allow33=False, profiles=("paxis", "paxis", "betap"))
    else:
        plan = w.gen_solved(rng, limited=False if kind == "read" else None, allow33=False, profiles=("paxis", "betap"))
    plan["grid"].update(nx=17, ny=17)
    plan["kind"] = kind
    pause = rng.choice([0.0001, 0.0001, 0.0, 0.5, 3600.0, -1.0])
    plan["display"] = {"pause": pause, "axis": rng.choice(["none", "none", "given", "given"]), "show": True}
    if kind == "read" and plan["display"]["axis"] == "given":
        plan["display"]["show"] = rng.flip(0.5)  # giving an axis implies it
    if rng.flip(0.3) and plan["machine"].get("sensors") is None:
        plan["machine"]["sensors"] = [{"k": "bp", "R": 1.6, "Z": 0.3, "theta": 0.7, "name": "b"}, {"k": "fl", "R": 0.5, "Z": 0.1, "name": "f"}]
    plan["start"] = rng.choice(["solved", "fresh"])
    plan["solve"] = {"rtol": rng.choice([1e-2, 1e-3]), "blend": rng.choice([0.0, 0.0, 0.3]), "maxits": rng.choice([2, 15, 30]), "constrain": rng.flip(0.8)}
    plan["work"] = [[rng.choice([1, 1, 2, 3, 4, 5]), rng.choice(WORK)] for _ in range(rng.choice([0, 2, 5]))]
    plan["fault"] = None
    if rng.flip(0.5):
        plan["fault"] = [rng.choice(["pause", "pause", "plot", "plot", "draw", "print"]), rng.choice([1, 1, 2, 3, 5, 8, 13]), rng.choice(sorted(EXC))]
    plan["stream"] = p05.gen_stream(rng)
    plan["N"], plan["maxgen"] = 4, rng.choice([1, 2])
    return plan


class Display:
    """The simulated display"""

    def __init__(self, plan, sim, eq):
        self.plan, self.sim, self.eq = plan, sim, eq
        self.pauses, self.draws, self.prints, self.plots = 0, 0, 0, 0
        self.planned, self.busy = None, False
        self.seen = []

    def fail(self, place, n):
        f = self.plan["fault"]
        if f and f[0] == place and f[1] == n and self.planned is None and not self.busy:
            self.planned = EXC[f[2]]("planned")
            self.sim.fault("%s-%s" % (place, f[2]))
            raise self.planned

    def pause(self, interval=0.0, *a, **k):
        self.stop("pause", interval)

    def show(self, *a, **k):
        self.stop("show", 1.0)

    def stop(self, how, interval):
        self.pauses += 1
        self.sim.time += float(interval)
        self.sim.event(how, self.pauses, float(interval))
        self.sim.probe(how)
        eq = self.eq() if self.eq is not None else None
        if eq is not None:
            self.seen.append(np.array(eq.plasma_psi))
        self.busy = True
        try:
            self.work(eq, how)
        finally:
            self.busy = False
        self.fail("pause", self.pauses)

    def work(self, eq, how):
        import matplotlib.pyplot as plt

        for n, what in self.plan["work"]:
            if n != self.pauses:
                continue
            self.sim.state(self.plan["kind"], how, n, what)
            self.sim.event("work", what)
            if what == "close":
                plt.close("all")
            elif what == "clf":
                for i in plt.get_fignums():
                    plt.figure(i).canvas.flush_events()
            elif what == "figure":
                plt.figure().add_subplot(111).plot([0, 1], [1, 0])
            elif eq is not None and what != "plot":
                try:
                    qs.ask(eq, what)
                except (ValueError, RuntimeError, AssertionError, IndexError, TypeError, AttributeError, ZeroDivisionError):
                    pass
            elif eq is not None:
                try:
                    eq.plot(axis=plt.figure().add_subplot(111), show=False)
                except (ValueError, TypeError, AttributeError):
                    pass

    def write(self, s):
        if s.strip() and not self.busy:
            self.prints += 1
            self.fail("print", self.prints)
        return len(s)

    def flush(self):
        pass

    def __enter__(self):
        import matplotlib.pyplot as plt
        from matplotlib.backend_bases import FigureCanvasBase  # noqa: F401
        from matplotlib.backends.backend_agg import FigureCanvasAgg

        self.old = plt.pause, plt.show, FigureCanvasAgg.draw

        def pause(*a, **k):
            return self.pause(*a, **k)

        def show(*a, **k):
            return self.show(*a, **k)

        swap({id(plt.pause): pause, id(plt.show): show})
        real = FigureCanvasAgg.draw

        def draw(canvas):
            self.draws += 0 if self.busy else 1
            self.fail("draw", self.draws)
            return real(canvas)

        FigureCanvasAgg.draw = draw
        from matplotlib.axes import Axes

        self.axes = {name: getattr(Axes, name) for name in ("plot", "contour", "contourf", "set_xlabel", "set_aspect", "clear")}

        def wrapped(name, f):
            def g(axis, *a, **k):
                if not self.busy and not self.inside:
                    self.plots += 1
                    self.fail("plot", self.plots)
                self.inside += 1
                try:
                    return f(axis, *a, **k)
                finally:
                    self.inside -= 1

            return g

        self.inside = 0
        for name, f in self.axes.items():
            setattr(Axes, name, wrapped(name, f))
        self.out = sys.stdout
        sys.stdout = self
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        from matplotlib.backends.backend_agg import FigureCanvasAgg

        sys.stdout = self.out
        plt.pause, plt.show, FigureCanvasAgg.draw = self.old
        from matplotlib.axes import Axes

        for name, f in self.axes.items():
            setattr(Axes, name, f)
        plt.close("all")
        return False


def swap(new):
    """Replaces functions wherever matplotlib.pyplot or freegs modules hold them"""
    for name, m in list(sys.modules.items()):
        if m is not None and (name == "matplotlib.pyplot" or name == "freegs" or name.startswith("freegs.")):
            for k, v in list(vars(m).items()):
                if id(v) in new:
                    setattr(m, k, new[id(v)])


def task(plan, sim):
    """(function of the display options, equilibrium being worked on)"""
    import freegs
    from freegs import geqdsk, optimise

    if plan["kind"] == "solve":
        if plan["start"] == "solved":
            W = w.solved(plan, sim)
            for _, c in W.tok.coils:
                if c.control:
                    c.current *= 1.02
        else:
            W = w.World(plan)
        s = plan["solve"]
        limited = bool(plan.get("limited"))

        steps = []

        def constrain(e):
            W.constrain(e)
            steps.append(np.array(e.plasma_psi))

        def go(**kw):
            info = freegs.solve(W.eq, W.profiles, constrain if s["constrain"] else None, rtol=s["rtol"], blend=s["blend"], maxits=s["maxits"], convergenceInfo=True,
                                check_limited=limited, **kw)
            return W.eq, [np.array(x) for x in info] + [steps]

        return go, lambda: W.eq
    W = w.solved(plan, sim, 5e-4, 80)
    if plan["kind"] == "read":
        text = io.StringIO()
        with w.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            geqdsk.write(W.eq, text)
        tok = w.build_machine(plan["machine"])

        def go(**kw):
            text.seek(0)
            eq = geqdsk.read(text, tok, blend=plan["solve"]["blend"], rtol=plan["solve"]["rtol"], **kw)
            con = getattr(eq, "control", None)
            return eq, [len(con.xpoints), np.array(con.isoflux, dtype=float)] if con is not None else None

        return go, None
    coil = plan["machine"]["coils"][0][0]
    controls = [optimise.CoilRadius(coil, minimum=W.tok[coil].R - 0.03, maximum=W.tok[coil].R + 0.03)]
    best = {}

    def go(show=False, **kw):
        p05.random_stream(plan["stream"])
        reports = []
        mon = optimise.PlotMonitor() if show else None

        def monitor(generation, b, population):
            best["eq"] = b[1]
            reports.append([generation, float(b[0]), [float(x) for x, _ in population]])
            if mon is not None:
                mon(generation, b, population)

        eq = optimise.optimise(W.eq, controls, optimise.max_abs_coil_current, maxgen=plan["maxgen"], N=plan["N"], monitor=monitor)
        return eq, reports

    return go, lambda: best.get("eq")


RAISES = (RuntimeError, ValueError, AssertionError, IndexError, TypeError, AttributeError, ZeroDivisionError, KeyError, np.linalg.LinAlgError)


def outcome(go, **kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            eq, info = go(**kw)
        except RAISES as e:
            return ["raised", type(e).__name__, e]
        return ["ok", w.observe(eq), info]


def reference(plan):
    sim = core.Sim(plan)
    try:
        go, _ = task(plan, sim)
    except core.Skip as s:
        return ["skip", str(s)]
    with w.quiet():
        out = outcome(go)
    if out[0] == "raised":
        out[2] = None
    return out


def run(plan, sim):
    import matplotlib.pyplot as plt

    want = core.in_child(lambda: reference(plan))
    if want[0] == "skip":
        sim.skip(want[1])
    with w.quiet():
        go, eq = task(plan, sim)
    d = plan["display"]
    kw = {"show": d["show"]}
    if plan["kind"] != "optimise":
        kw["pause"] = d["pause"]
        if d["axis"] == "given":
            kw["axis"] = plt.figure().add_subplot(111)
            if not d["show"]:
                del kw["show"]
    with Display(plan, sim, eq) as disp:
        err = None
        try:
            got = outcome(go, **kw)
        except BaseException as e:
            err = e
        else:
            if got[0] == "raised":
                err = got[2]
    if disp.planned is not None:
        sim.check(err is disp.planned, "failure-swallowed", lambda: "%s: %r" % (plan["fault"], err))
        sim.state(plan["kind"], plan["fault"], d["pause"], d["axis"])
        return
    if err is not None and not isinstance(err, RAISES):
        raise err
    sim.check(got[0] == want[0], "result-differs", lambda: "with display %s %r, without %s" % (got[0], got[1] if err is None else err, want[:2] if want[0] == "raised" else "ok"))
    if got[0] == "raised":
        sim.check(got[1] == want[1], "result-differs", lambda: "with display %r, without %s" % (err, want[1]))
        sim.probe("raised")
        return
    diff = w.difference(want[1:], got[1:], 1e-9)
    sim.check(diff is None, "result-differs", lambda: "without / with display: %s" % diff)
    if plan["kind"] == "solve":
        # Each step was shown
        sim.check(disp.pauses == len(want[2][0]), "steps-not-shown", lambda: "%d steps, %d shown" % (len(want[2][0]), disp.pauses))
        if plan["solve"]["constrain"]:
            same = w.difference(want[2][2], disp.seen, 1e-9)
            sim.check(same is None, "shown-state-differs", lambda: "flux seen during the pauses: %s" % same)
    sim.probe(plan["kind"])
