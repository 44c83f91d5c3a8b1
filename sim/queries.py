"""Every way of reading an equilibrium"""
import io
import warnings

import numpy as np

from . import world as w

RS, ZS = np.array([0.55, 0.8, 1.0, 1.3, 1.6]), np.array([0.3, -0.4, 0.05, 0.3, -0.5])


def _method(name, *args):
    return lambda eq: getattr(eq, name)(*args)


SIMPLE = ["plasmaCurrent", "plasmaVolume", "psi", "psiN", "fvac", "separatrix", "innerOuterSeparatrix", "intersectsWall", "magneticAxis", "Rmagnetic", "Zmagnetic",
          "geometricAxis", "Rgeometric", "Zgeometric", "minorRadius", "aspectRatio", "inverseAspectRatio", "elongation", "elongationUpper", "elongationLower",
          "effectiveElongation", "triangularityUpper", "triangularityLower", "triangularity", "shafranovShift", "internalInductance1", "internalInductance2",
          "internalInductance3", "internalInductance", "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta", "totalBeta", "betaN", "pressure_ave", "w_th",
          "qcyl"]
Q = {name: _method(name) for name in SIMPLE}
for _n in ("psiRZ", "psiNRZ", "Br", "Bz", "Bpol", "Btor", "Btot", "plasmaBr", "plasmaBz"):
    Q[_n] = _method(_n, RS, ZS)
    Q[_n + "-point"] = _method(_n, 1.05, 0.12)
PN = np.array([0.1, 0.5, 0.9])
for _n in ("pprime", "ffprime", "pressure", "fpol", "q", "tor_flux", "rhotor"):
    Q[_n] = _method(_n, PN)
Q["q-all"] = lambda eq: eq.q(npsi=10)
Q["rhotor-all"] = lambda eq: eq.rhotor(np.linspace(0.05, 0.95, 5))
Q["psi-bndry"] = lambda eq: [eq.psi_axis, eq.psi_bndry, eq.is_limited, eq.mask if hasattr(eq, "mask") else None]


def _forces(eq):
    return eq.getForces()


def _print(eq):
    eq.printForces()
    eq.tokamak.printCurrents()
    return repr(eq.tokamak)


def _plot(eq):
    import matplotlib.pyplot as plt

    fig = plt.figure()
    try:
        axis = fig.add_subplot(111)
        eq.plot(axis=axis, show=False)
        eq.tokamak.plot(axis=axis, show=False)
        return [len(axis.lines) > 0]
    finally:
        plt.close("all")


def _critical(eq):
    from freegs import critical

    o, x = critical.find_critical(eq.R, eq.Z, eq.psi())
    return [np.array(o), np.array(x)]


def _mask(eq):
    from freegs import critical

    o, x = critical.find_critical(eq.R, eq.Z, eq.psi())
    return critical.core_mask(eq.R, eq.Z, eq.psi(), o, x)


def _separatrix(eq):
    from freegs import critical

    return np.array(critical.find_separatrix(eq, ntheta=12))


def _safety(eq):
    from freegs import critical

    return np.array(critical.find_safety(eq, npsi=4, ntheta=32))


def _geqdsk(eq):
    from freegs import geqdsk

    f = io.StringIO()
    geqdsk.write(eq, f)
    return f.getvalue().split("\n", 1)[1]


def _divgeo(eq):
    from freegs import divgeo

    f = io.StringIO()
    divgeo.write(eq, f)
    return f.getvalue()


def _save(eq):
    from . import p01
    from .disk import Device

    dev = Device()
    p01.save(dev, eq)
    return w.observe(p01.restore(dev), profiles=False)


def _measure(eq):
    if not eq.tokamak.sensors:
        return None
    eq.tokamak.takeMeasurements(eq)
    return [float(np.squeeze(s.measurement)) for s in eq.tokamak.sensors if s.measurement is not None]


def _trace(eq):
    from freegs import fieldtracer

    return np.array(fieldtracer.traceFieldLines(eq, solwidth=0.02, nlines=2, nturns=1, npoints=8)[0].R)


def _refine(eq):
    from freegs import equilibrium

    return equilibrium.refine(eq).plasma_psi


def _control(eq):
    t = eq.getMachine()
    return [t.controlPsi(1.0, 0.2), t.controlBr(1.0, 0.2), t.controlBz(1.0, 0.2), t.controlCurrents(), list(t.getCurrents().values())]


def _greens(eq):
    t = eq.getMachine()
    return t.calcPsiFromGreens(t.createPsiGreens(eq.R, eq.Z))


Q.update({"forces": _forces, "print": _print, "plot": _plot, "critical": _critical, "mask": _mask, "find_separatrix": _separatrix, "find_safety": _safety,
          "geqdsk": _geqdsk, "divgeo": _divgeo, "save": _save, "measure": _measure, "trace": _trace, "refine": _refine, "control": _control, "greens": _greens})
SLOW = {"geqdsk", "trace", "plot", "rhotor-all", "rhotor", "tor_flux", "q-all", "refine"}
NAMES = sorted(Q)


def ask(eq, name):
    """('ok', tree) or ('error', kind of error)"""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return tree(Q[name](eq))


def tree(x):
    if isinstance(x, dict):
        return {str(k): tree(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [tree(v) for v in x]
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=float)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    return x
