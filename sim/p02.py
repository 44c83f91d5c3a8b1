"""P02: failed or interrupted HDF5 saves and reads"""
import numpy as np

from . import p01
from . import world as w
from .disk import Device
from .sched import LineTracer

RUNS = {"quick": 240, "thorough": 6000}
SHRINK = ["faults", "machine.coils", "ops"]
RULE = "A plan is a machine and equilibrium plus a list of faulty saves and reads, each against its own simulated disk: a failure at a " \
       "seeded disk operation (ENOSPC, EIO, interrupt; torn or not; transient or sticky), a crash keeping a seeded prefix of the disk " \
       "modifications, an interrupt or failed allocation at a seeded line of freegs code, an unsavable coil, or a save into a file " \
       "which already holds an equilibrium."
STATE_MEASURE = "distinct (fault kind, disk operation number or interrupted function, outcome of save, outcome of read) signatures"
REAL = ["freegs (all of it)", "h5py and the HDF5 library", "numpy/scipy"]
STUB = ["disk (simulated block device below HDF5's file-object driver)"]
ASSUMPTIONS = ["disk writes become durable in order (prefix with a torn last write); HDF5 itself does not survive reordered writes",
               "errors the HDF5 library itself absorbs are only required to be harmless"]


def gen(rng, tier):
    plan = p01.gen(rng, tier)
    for k in ("mode_w", "mode_r", "generations"):
        plan.pop(k)
    plan["ops"] = []
    faults = []
    kinds = ["op", "op", "op", "full", "crash", "crash", "line", "line", "mem", "unsup", "exist", "read", "read", "readline"]
    if rng.flip(0.4):
        kinds = rng.sample(kinds, 4)
    for _ in range(rng.choice([6, 12, 24])):
        k = rng.choice(kinds)
        f = {"k": k, "mode": rng.choice(["w", "w", "a", "w-"]), "base": rng.choice(["empty", "empty", "user", "failed", "old"])}
        if k == "op":
            f.update(at=rng.uni(0, 1), err=rng.choice(["ENOSPC", "EIO", "INT"]), partial=rng.choice([0, 0, 0.5, 0.9]))
        elif k == "full":
            f.update(at=rng.uni(0, 1), partial=rng.choice([0, 0.3]))
        elif k == "crash":
            f.update(at=rng.uni(0, 1), torn=rng.choice([None, None, 0.0, 0.2, 0.5, 0.97]), tail=rng.flip(0.4))
        elif k in ("line", "mem", "readline"):
            f.update(at=rng.uni(0, 1))
        elif k == "unsup":
            f.update(pos=rng.randrange(9), how=rng.choice(["multi", "raises", "noattr"]))
        elif k == "exist":
            f.update(how=rng.choice(["append", "r+", "handle", "append-fault", "append-read"]), at=rng.uni(0, 1))
        elif k == "read":
            f.update(at=rng.uni(0, 1), err=rng.choice(["EIO", "INT"]))
        f["retry"] = rng.flip(0.3)
        faults.append(f)
    plan["faults"] = faults
    return plan


class Boom(Exception):
    pass


def attempt(fn):
    try:
        fn()
        return None
    except BaseException as e:  # every outcome is judged by the caller
        return e


class Other:
    """Another, different equilibrium"""

    def __init__(self, eq):
        tok = w.build_machine({"coils": [["P1L", {"k": "coil", "R": 1.3, "Z": 0.4, "I": 77.0}], ["zz", {"k": "coil", "R": 1.4, "Z": -0.4, "I": 5.0}]]})
        self.eq = w.build_eq({"Rmin": 0.2, "Rmax": 1.9, "Zmin": -0.9, "Zmax": 0.9, "nx": 9, "ny": 9}, tok, psi=np.ones((9, 9)) * 0.5, current=3.0)


def run(plan, sim):
    import freegs
    from freegs import OutputFile

    with w.quiet():
        tok, eq, profiles, constrain = p01.build(plan)
    before = w.observe(eq, profiles=False)
    state0 = w.machine_state(tok)
    clean = Device(sim=sim)
    p01.save(clean, eq)
    p01.compare(sim, eq, p01.restore(Device(clean.image())), "clean")
    good = clean.image()
    other = Other(eq).eq
    d = Device()
    p01.save(d, other)
    old = d.image()

    def base(f):
        """(initial disk content, mode for saving)"""
        if f["base"] == "empty" or f["mode"] == "w-":
            return b"", f["mode"]
        if f["base"] == "user":
            d = Device()
            import h5py

            with h5py.File(d, "w") as h:
                h["mydata"] = np.arange(5)
            return d.image(), "a"
        if f["base"] == "failed":
            d = Device()
            bad = freegs.machine.MultiCoil(1.0, 0.5)
            tok.coils.append(("bad", bad))
            try:
                attempt(lambda: p01.save(d, eq))
            finally:
                tok.coils.pop()
            return d.image(), "a"
        return old, "w"

    def unchanged(what):
        diff = w.difference(before, w.observe(eq, profiles=False))
        sim.check(diff is None, "failed-save-changes-equilibrium", "%s: %s" % (what, diff))
        diff = w.difference(state0, w.machine_state(tok))
        sim.check(diff is None, "failed-save-changes-machine", "%s: %s" % (what, diff))

    def judge(image, what, initial=b""):
        """The file can't be mistaken for something else"""
        box = []
        err = attempt(lambda: box.append(p01.restore(Device(image))))
        if err is not None:
            sim.check(isinstance(err, Exception), "read-of-failed-save-crashes", repr(err))
            return "unreadable"
        if initial == old and w.same_array(box[0].plasma_psi, other.plasma_psi) and box[0].plasmaCurrent() == 3.0 and \
                sorted(l for l, _ in box[0].tokamak.coils) == ["P1L", "zz"]:
            return "old"
        p01.compare(sim, eq, box[0], "partial-save-read-back")
        return "complete"

    def user_data(image):
        import h5py

        with h5py.File(Device(image), "r") as h:
            return "mydata" in h and list(h["mydata"][:]) == [0, 1, 2, 3, 4]

    def expect_error(err, image, what, initial):
        """Save ended with err (None: no error seen)"""
        out = judge(image, what, initial)
        if err is None:
            sim.check(out == "complete", "failed-save-reports-success", "%s: save returned normally but file is %s" % (what, out))
        return out

    for n, f in enumerate(plan["faults"]):
        k = f["k"]
        sim.event("fault", n, k)
        initial, mode = base(f)
        sig = k
        if k in ("op", "full", "crash"):
            probe = Device(initial)
            p01.save(probe, eq, mode)
            N = probe.n
            at = 1 + int(f["at"] * N)
        if k == "op":
            dev = Device(initial, fail={at: f["err"]}, partial=f["partial"], sim=sim)
            err = attempt(lambda: p01.save(dev, eq, mode))
            out = expect_error(err, dev.image(), "%s at op %d/%d" % (f["err"], at, N), initial)
            sig = (k, f["err"], at, type(err).__name__, out)
        elif k == "full":
            dev = Device(initial, full_from=at, partial=f["partial"], sim=sim)
            err = attempt(lambda: p01.save(dev, eq, mode))
            out = expect_error(err, dev.image(), "disk full from op %d/%d" % (at, N), initial)
            sig = (k, at, type(err).__name__, out)
        elif k == "crash":
            J = len(probe.journal)
            at = int(f["at"] * (J + 1))
            if f["tail"]:
                at = max(0, J - 1 - at % 8)
            sim.fault("crash" if f["torn"] is None else "crash-torn-write")
            out = judge(probe.crash_image(at, f["torn"]), "crash after %d/%d" % (at, J), initial)
            if at >= J:
                sim.check(out == "complete", "completed-save-lost", "all writes on disk but file is %s" % out)
            dev = Device(probe.crash_image(at, f["torn"]), sim=sim)
            sig = (k, at, out)
        elif k in ("line", "mem"):
            with LineTracer() as t:
                p01.save(Device(initial), eq, mode)
            at = 1 + int(f["at"] * t.n)
            exc = KeyboardInterrupt if k == "line" else MemoryError
            dev = Device(initial, sim=sim)
            with LineTracer(at, exc, sim) as t2:
                err = attempt(lambda: p01.save(dev, eq, mode))
            if t2.fired:
                sim.check(isinstance(err, exc), "interrupt-swallowed", "interrupted in %s, save raised %r" % (t2.where, err))
            import gc

            e = err
            err = None
            gc.collect()
            out = judge(dev.image(), "interrupted in %s" % t2.where, initial)
            sig = (k, t2.where, type(e).__name__, out)
            e = None
            gc.collect()
        elif k == "unsup":
            dev = Device(initial, sim=sim)
            bad = freegs.machine.MultiCoil(1.0, 0.5)
            if f["how"] == "raises":
                class Bad(freegs.machine.Coil):
                    def to_numpy_array(self):
                        raise Boom("coil")
                bad = Bad(1.0, 0.5)
            elif f["how"] == "noattr":
                bad = freegs.machine.Coil(1.0, 0.5)
                bad.to_numpy_array = None
            pos = f["pos"] % (len(tok.coils) + 1)
            tok.coils.insert(pos, ("bad coil", bad))
            sim.fault("unsavable-coil")
            try:
                eq3 = w.build_eq(plan["grid"], tok, psi=eq.plasma_psi, current=eq.plasmaCurrent())
                err = attempt(lambda: p01.save(dev, eq3, mode))
            finally:
                tok.coils.pop(pos)
            sim.check(isinstance(err, Exception), "unsavable-coil-accepted", "saving %s gave %r" % (f["how"], err))
            out = attempt(lambda: p01.restore(Device(dev.image())))
            sim.check(isinstance(out, Exception), "partial-save-read-back", "file with an unsavable coil was read")
            sig = (k, f["how"], type(err).__name__)
        elif k == "exist":
            dev = Device(good, sim=sim)
            sim.event(f["how"])
            if f["how"] == "handle":
                dev = Device(sim=sim)

                def both():
                    with OutputFile(dev, "w") as h:
                        h.write_equilibrium(eq)
                        h.write_equilibrium(other)
                err = attempt(both)
            elif f["how"] == "append-fault":
                probe = Device(good)
                attempt(lambda: p01.save(probe, other, "a"))
                dev = Device(good, fail={1 + int(f["at"] * probe.n): "EIO"}, sim=sim)
                err = attempt(lambda: p01.save(dev, other, "a"))
            else:
                err = attempt(lambda: p01.save(dev, other, "r+" if f["how"] == "r+" else "a"))
            sim.check(isinstance(err, Exception), "stored-equilibrium-replaced", "second save into the same file gave %r" % err)
            p01.compare(sim, eq, p01.restore(Device(dev.image())), "stored-equilibrium-altered")
            if f["how"] == "append-read":
                def rd():
                    with OutputFile(dev, "a") as h:
                        attempt(lambda: h.write_equilibrium(other))
                        p01.compare(sim, eq, h.read_equilibrium(), "stored-equilibrium-altered")
                rd()
            sig = (k, f["how"], type(err).__name__)
        elif k in ("read", "readline"):
            probe = Device(good)
            with LineTracer() as t:
                p01.restore(probe)
            box = []
            if k == "read":
                at = 1 + int(f["at"] * probe.n)
                dev = Device(good, fail={at: f["err"]}, sim=sim)
                err = attempt(lambda: box.append(p01.restore(dev)))
                where = at
            else:
                dev = Device(good, sim=sim)
                with LineTracer(1 + int(f["at"] * t.n), KeyboardInterrupt, sim) as t2:
                    err = attempt(lambda: box.append(p01.restore(dev)))
                where = t2.where
                if t2.fired:
                    sim.check(isinstance(err, KeyboardInterrupt), "interrupt-swallowed", "read interrupted in %s gave %r" % (where, err))
            if err is None:
                p01.compare(sim, eq, box[0], "faulty-read")
            err = None
            sim.check(dev.image() == good, "read-alters-file", "reading changed the file")
            p01.compare(sim, eq, p01.restore(Device(dev.image())), "read-after-failed-read")
            sig = (k, where, bool(box))
        if initial and f["base"] == "user" and k in ("unsup",):
            sim.check(user_data(dev.image()), "user-data-lost", "other data in the file was lost by a failed save")
        unchanged(str(sig))
        sim.state(sig)
        sim.event("outcome", sig)
        if f["retry"] and k in ("op", "full", "unsup", "crash", "line", "mem"):
            d2 = Device(sim=sim)
            err = attempt(lambda: p01.save(d2, eq, "w"))
            sim.check(err is None, "retry-fails", "saving again after %s: %r" % (sig, err))
            p01.compare(sim, eq, p01.restore(Device(d2.image())), "retried-save")
            d2 = Device(dev.image(), sim=sim)
            err = attempt(lambda: p01.save(d2, eq, "w"))
            sim.check(err is None, "retry-fails", "saving over the failed file after %s: %r" % (sig, err))
            p01.compare(sim, eq, p01.restore(Device(d2.image())), "retried-save")
            sim.probe("retries")
            if k == "unsup":
                # The failed file can be completed in append mode
                d3 = Device(dev.image(), sim=sim)
                err = attempt(lambda: p01.save(d3, eq, "a"))
                sim.check(err is None, "retry-fails", "completing the failed file: %r" % err)
                p01.compare(sim, eq, p01.restore(Device(d3.image())), "retried-save")
