"""P16: queries never change the equilibrium"""
import warnings

import numpy as np

from . import core
from . import queries as qs
from . import world as w
from .sched import LINE_EXC, LineTracer, Threads

RUNS = {"quick": 160, "thorough": 6000}
SHRINK = ["epochs"]
RULE = "A plan is an equilibrium and epochs of queries (in any order, repeated, failing, interrupted at a seeded line, or by several threads at once), each followed by " \
       "changes and solves. A reference process runs the same changes and solves without the queries; each query is put to a copy of that process which then ends."
STATE_MEASURE = "distinct (query, preceding query, fault place) signatures and thread interleavings"
TIME_UNIT = "queries and traced lines"
REAL = ["freegs (all query methods, critical, plotting, field tracing, export, save)"]
STUB = ["storage of the exported files", "matplotlib runs without a display"]
ASSUMPTIONS = ["concurrent readers do not calculate forces (documented to switch the coil off meanwhile)",
               "force calculations and measurements are not interrupted here (P13 and P14 do so)"]

NOT_INTERRUPTED = {"forces", "print", "measure", "plot"}
NOT_THREADED = {"forces", "print", "measure", "plot", "trace", "save", "geqdsk"}
BAD = ["psiRZ-bad", "q-bad", "sep-bad", "bad-file", "bad-plot", "pressure-bad", "psiN-far", "bad-tree"]
COMMON = [n for n in qs.NAMES if n not in qs.SLOW]


def gen_query(rng, threaded=False):
    while True:
        name = rng.choice(COMMON) if rng.flip(0.9) else rng.choice(sorted(qs.SLOW))
        if threaded and name in NOT_THREADED:
            continue
        return name


def gen(rng, tier):
    plan = w.gen_solved(rng, limited=rng.flip(0.25), allow33=False)
    plan["grid"].update(nx=17, ny=17)
    if rng.flip(0.5):
        plan["machine"]["sensors"] = [{"k": "bp", "R": 1.6, "Z": 0.3, "theta": 0.7, "name": "b"}, {"k": "fl", "R": 0.5, "Z": 0.1, "name": "f"},
                                      {"k": "rog", "R": [0.4, 1.7, 1.7, 0.4], "Z": [-0.85, -0.85, 0.85, 0.85], "name": "r"}]
    epochs = []
    for _ in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.choice([2, 4, 8])):
            k = rng.random()
            if k < 0.12:
                ops.append(["readers", [[gen_query(rng, True) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))],
                            rng.randrange(1 << 30), rng.choice([0.3, 0.05, 0.01])])
            elif k < 0.22:
                ops.append(["bad", rng.choice(BAD)])
            elif k < 0.40:
                while True:
                    name = gen_query(rng)
                    if name not in NOT_INTERRUPTED:
                        break
                ops.append(["interrupt", name, rng.uni(0, 1, 6), rng.choice(sorted(LINE_EXC))])
            else:
                ops.append(["ask", gen_query(rng)])
        epochs.append({"first": rng.choice([None, None, None, rng.uni(-0.03, 0.03)]), "ops": ops, "change": rng.choice([None, None, rng.uni(-0.03, 0.03)]), "solve": rng.choice(["linear", "linear", "picard", "control", "none"])})
    plan["epochs"] = epochs
    return plan


def advance(W, epoch):
    """What happens after the queries of an epoch"""
    err = None
    with w.quiet(), np.errstate(all="ignore"):
        if epoch["change"] is not None:
            for _, c in W.tok.coils:
                c.current = c.current * (1 + epoch["change"])
        try:
            if epoch["solve"] == "linear":
                W.eq.solve(W.profiles)
            elif epoch["solve"] == "control":
                W.constrain(W.eq)
                W.eq.solve(W.profiles)
            elif epoch["solve"] == "picard":
                W.picard(rtol=3e-3, maxits=30, check_limited=W.limited)
        except (RuntimeError, ValueError, AssertionError, IndexError, TypeError) as e:
            err = type(e).__name__
    return err


def prepare(W, epoch):
    """Coil currents may change (and the axis and boundary flux be those of before) when the queries begin"""
    if epoch.get("first") is not None:
        for _, c in W.tok.coils:
            c.current = c.current * (1 + epoch["first"])


def answer(eq, name):
    try:
        with w.quiet():
            return ["ok", qs.ask(eq, name)]
    except (ValueError, RuntimeError, AssertionError, IndexError, TypeError, AttributeError, ZeroDivisionError, KeyError) as e:
        return ["error", type(e).__name__]


def look(eq):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return w.observe(eq)


def names_of(epoch):
    out = set()
    for op in epoch["ops"]:
        if op[0] in ("ask", "interrupt"):
            out.add(op[1])
        elif op[0] == "readers":
            for r in op[1]:
                out.update(r)
    return sorted(out)


def reference(plan):
    """Executed in a process of its own: [(answers of an unqueried equilibrium, observation, error of the solve)]"""
    sim = core.Sim(plan)
    try:
        W = w.solved(plan, sim)
    except core.Skip as s:
        return str(s)
    W.limited = bool(W.eq.check_limited)
    out = []
    for e in plan["epochs"]:
        prepare(W, e)
        before = core.in_child(lambda: look(W.eq))
        # Each query is put to a process in which no other query was ever made
        answers = {n: core.in_child(lambda: answer(W.eq, n)) for n in names_of(e)}
        err = advance(W, e)
        seen = core.in_child(lambda: look(W.eq)) if err is None else None
        out.append((before, answers, seen, err))
        if err:
            break
    return out


def bad(eq, kind):
    """Queries which fail"""
    import io

    from freegs import critical, divgeo, geqdsk

    class Full(io.StringIO):
        def write(self, s):
            raise OSError(28, "No space left on device")

    class Bad:
        def __getattr__(self, name):
            raise RuntimeError("planned")

    with w.quiet(), np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if kind == "psiRZ-bad":
                eq.psiRZ("x", None)
            elif kind == "q-bad":
                eq.q(np.array([0.5, float("nan"), 7.0]))
            elif kind == "sep-bad":
                critical.find_separatrix(eq, opoint=[], xpoint=[], ntheta=7)
            elif kind == "bad-file":
                divgeo.write(eq, Full())
            elif kind == "bad-plot":
                eq.plot(axis=Bad(), show=False)
            elif kind == "pressure-bad":
                eq.pressure([None])
            elif kind == "psiN-far":
                eq.psiNRZ(50.0, -50.0)
            elif kind == "bad-tree":
                critical.core_mask(eq.R, eq.Z, eq.psi()[:-1], [], [])
        except (OSError, RuntimeError, TypeError, ValueError, IndexError, AssertionError, AttributeError, ZeroDivisionError) as e:
            return type(e).__name__


def run(plan, sim):
    ref = core.in_child(lambda: reference(plan))
    if isinstance(ref, str):
        sim.skip(ref)
    W = w.solved(plan, sim)
    W.limited = bool(W.eq.check_limited)
    last = "none"
    history = []
    for e, (before, answers, after, err) in zip(plan["epochs"], ref):
        prepare(W, e)

        def unchanged():
            d = w.difference(before, look(W.eq), 1e-10)
            sim.check(d is None, "query-changed-state", lambda: "after %s: %s" % (history[-4:], d))

        def judge(name, got):
            d = different(answers[name], got)
            sim.check(d is None, "answer-changed", lambda: "%s after %s: %s" % (name, history[-6:], d))

        for op in e["ops"]:
            sim.event(*op)
            sim.time += 1
            history.append(op[:2])
            if op[0] == "ask":
                judge(op[1], answer(W.eq, op[1]))
                sim.state("ask", op[1], last)
                last = op[1]
            elif op[0] == "bad":
                kind = bad(W.eq, op[1])
                if kind:
                    sim.fault("failing-query-" + op[1])
                    sim.event("failed with", kind)
            elif op[0] == "interrupt":
                exc = LINE_EXC[op[3]]
                n = core.in_child(lambda: count_lines(W.eq, op[1]))
                with LineTracer(1 + int(op[2] * n), exc, sim) as t:
                    try:
                        answer(W.eq, op[1])
                    except exc:
                        pass
                sim.state("interrupt", op[1], t.where)
            else:
                threads = Threads(core.Rng("readers", op[2]), p=op[3], sim=sim, max_switches=2000)
                results, errors = threads.run([lambda names=names: [answer_threaded(W.eq, n) for n in names] for names in op[1]])
                for x in errors:
                    if x is not None:
                        raise x
                for names, got in zip(op[1], results):
                    for n, g in zip(names, got):
                        judge(n, g)
            unchanged()
        err2 = advance(W, e)
        history.append(["solve", e["solve"]])
        sim.event("solve", e["solve"], err2)
        sim.check(err == err2, "solve-differs", lambda: "after %s: %s, without the queries %s" % (history[-6:], err2, err))
        if err:
            sim.probe("solve-failed")
            return
        d = w.difference(after, look(W.eq), 1e-9)
        sim.check(d is None, "solve-differs", lambda: "after %s: %s" % (history[-6:], d))


def answer_threaded(eq, name):
    try:
        with np.errstate(all="ignore"):
            return ["ok", qs.tree(qs.Q[name](eq))]
    except (ValueError, RuntimeError, AssertionError, IndexError, TypeError, AttributeError, ZeroDivisionError, KeyError) as e:
        return ["error", type(e).__name__]


def count_lines(eq, name):
    with LineTracer() as t:
        answer(eq, name)
    return t.n


def different(a, b):
    if a[0] == b[0] and isinstance(a[1], str) and isinstance(b[1], str) and a[0] == "ok":
        if a[1] == b[1]:
            return None
        try:
            import re

            number = re.compile(r"[-+]?\d\.\d+[eE][-+]\d+")
            x, y = number.findall(a[1]), number.findall(b[1])
            if number.sub("#", a[1]) == number.sub("#", b[1]):
                return w.difference(np.array(x, dtype=float), np.array(y, dtype=float), 1e-8)
        except ValueError:
            pass
        return "text differs"
    return w.difference(a, b, 1e-9)
