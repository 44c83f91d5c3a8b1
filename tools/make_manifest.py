"""Writes MANIFEST.json for the properties which have a module in sim/"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded search over plans, faults and interleavings; replayable, minimised)"
NOTES = {
 "P01": "seeded histories of a live equilibrium saved to and restored from a simulated disk; differential oracle (observable state before = after)",
 "P02": "faults at seeded operations of a simulated disk under the real HDF5 library, crash prefixes, interrupts at seeded lines; oracle: error surfaced, all-or-nothing read",
 "P03": "exports to a simulated text file with failures at seeded writes and interrupts at seeded lines; oracle: independent parse against the live equilibrium",
 "P04": "reads of exported files with truncation, read errors and interrupts; oracle: exported equilibrium, undisturbed re-read",
 "P05": "optimiser under a seeded random stream and scripted scores; oracle: recorded history of all evaluations",
 "P06": "optimisation of real and stubbed equilibria with failing measures and solves, interrupts and monitor errors; oracle: recorded history",
 "P07": "optimiser under seeded random streams with observed stub controls; oracle: decoding of each candidate, reachability over seeds",
 "P08": "nonlinear iteration with a scripted linear solver and callbacks that fail at seeded iterations; oracle: recorded flux history",
 "P09": "histories of solves, current changes and failures on real equilibria; oracle: independent integrals, derivatives and residuals",
 "P10": "failures and interrupts at seeded points of solve steps; oracle: state before, and undisturbed twin",
 "P11": "seeded coil-control problems with failures and interrupts; oracle: reference loop model of targets, limits and bystanders",
 "P12": "histories of operations on machines with interrupted queries; oracle: independent loop-field reference model",
 "P13": "force queries over histories with failing field calls; oracle: independent reference force model",
 "P14": "sensor histories with failing measurements; oracle: independent reference model",
 "P15": "op-level and line-level (threads) interleavings of independent equilibria with failures; oracle: solo run in a fresh process",
 "P16": "query sequences with failures, interrupts and concurrent readers; oracle: unqueried twin",
 "P23": "histories of solves, failures, changes and interrupted queries; oracle: independent evaluation (ray tracing, quadrature) on the present flux map",
 "P25": "histories of grid and domain changes with failing boundary conditions and interrupts at seeded lines; oracle: independent interpolation, original unchanged, P09 consistency",
 "P17": "solves, reads and optimisations with a simulated display clock and event loop; oracle: run without display",
}
NA = {
 "P18": "pure function of its arguments: no schedule, time, I/O, randomness or fault can influence it, so simulation decides nothing a plain numerical test would not; used indirectly (the P12-P14 reference model compares with the analytic expressions along histories)",
 "P19": "numerical convergence order of pure functions; no nondeterminism or fault for a simulator to control",
 "P20": "pure function of a flux map; no nondeterminism, I/O, time or fault for a simulator to control",
 "P21": "pure function of a flux map; no nondeterminism, I/O, time or fault for a simulator to control",
 "P22": "pure geometric functions; no nondeterminism, I/O, time or fault for a simulator to control",
 "P24": "deterministic ODE integration by scipy of a pure field function; no nondeterminism or fault for a simulator to control",
}
have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "sim")) if f.startswith("p") and f[1:3].isdigit())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
skip = set(sys.argv[1:])
have = [p for p in have if p not in skip]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
  {"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": TECH, "level": "exploration", "level_note": NOTES[p]} for p in have],
  "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in have]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(have)
