#!/usr/bin/env python3
"""Writes properties.jsonl (the property list is maintained here)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe, "hook_needed": hook}})


prop("P01", "Saving to HDF5 and restoring gives back the same equilibrium",
 "An equilibrium saved to an HDF5 file and read back has the same grid, plasma current, plasma and total flux, boundary condition, wall and coils (kind, label, position or outline, turns, current, control switch, circuit wiring), for every savable kind of coil and whatever sequence of solves, current changes, coil moves and earlier saves produced it. Saving does not alter the equilibrium being saved, and saving a restored equilibrium gives an equivalent file.",
 ["inputs", "histories", "configurations"],
 "every machine built from point, shaped, filament, circuit and solenoid coils (circuits with zero, negative and fractional multipliers), with or without a wall, every grid size and boundary condition, every history of operations before the save, and every sequence of save/restore generations",
 "The one round-trip test samples a single machine with default values; fidelity must hold for every coil kind, wiring and history of the live object.",
 ["freegs/dump.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/machine.py", "freegs/boundary.py"],
 [("write_equilibrium/read_equilibrium", "freegs/dump.py"), ("to_numpy_array/from_numpy_array of every coil kind", "freegs/coil.py, shaped_coil.py, filament_coil.py, machine.py")],
 [("file content", "groups and datasets of the stored equilibrium", "HDF5 file"), ("machine", "coils, circuits, wall of the live equilibrium", "Machine.coils, Machine.wall")],
 ["restored Equilibrium: R, Z, plasmaCurrent(), plasma_psi, psi(), psiRZ(), tokamak coils and wall"])

prop("P02", "A failed or interrupted HDF5 save is never read back as a different equilibrium",
 "If saving fails or stops at any point (disk full, I/O error, unsavable coil, user interrupt, crash with only a prefix of the writes on disk) the error reaches the caller, the equilibrium in memory is unchanged and can still be saved, and reading the resulting file either raises an error or gives the complete equilibrium that was being saved. An equilibrium which was already stored in the file stays intact and is not silently replaced, and an I/O error while reading raises instead of giving altered data.",
 ["crash_points", "fault_sequences", "histories"],
 "every device operation of every save and restore at which a fault, sticky full disk, interrupt or crash (with the last write possibly torn) can happen, followed by any sequence of retries and reads",
 "Tests save once to a healthy disk; the guarantee is about every point where a save or restore can stop.",
 ["freegs/dump.py", "freegs/coil.py", "freegs/machine.py"],
 [("staged write then rename of the group", "freegs/dump.py: write_equilibrium"), ("close on exit", "freegs/dump.py: OutputFile.__exit__")],
 [("device image", "bytes which reached the simulated disk", "file object given to OutputFile")],
 ["exception seen by the caller of save/restore; read_equilibrium on the surviving bytes; observables of the in-memory equilibrium"])

prop("P03", "Exported G-EQDSK and DivGeo files carry the equilibrium's own values",
 "A G-EQDSK or DivGeo file written for a solved equilibrium contains that equilibrium's own grid, reference field, plasma current, flux map, axis and boundary flux, profiles of p, p', f, ff' and q on the uniform axis-to-boundary flux grid, wall and closed plasma boundary, to the precision of the format. Exporting never alters the equilibrium, an error from the output file reaches the caller, and exporting again after any failure gives the same file as if nothing had failed.",
 ["inputs", "histories", "fault_sequences"],
 "every solved equilibrium (any grid incl. nx != ny, profile type, machine, history) and every output fault at any write, followed by retries",
 "No test looks inside an exported file, and none exports to a failing file.",
 ["freegs/geqdsk.py", "freegs/divgeo.py", "freegs/_divgeo.py"],
 [("write", "freegs/geqdsk.py"), ("write", "freegs/_divgeo.py")],
 [("file text", "exported text", "file handle argument")],
 ["text received by the file handle, parsed independently; exceptions; observables of the equilibrium"])

prop("P04", "Reading a G-EQDSK file reconstructs the exported equilibrium or raises",
 "Reading back an exported G-EQDSK file onto the same machine reconstructs the exported domain, wall, plasma current, pressure, vacuum field, coil currents and core flux shape within the accuracy of the fit, leaving coils which are not under control untouched and coil currents within any given bounds. A file which ends early, or whose reading fails or is interrupted, raises an error instead of giving a partial equilibrium, and the same file can afterwards be read with the result of an undisturbed read.",
 ["inputs", "fault_sequences", "configurations"],
 "every exported equilibrium, read option (domain, blending, fitting region, current bounds), initial state of the target machine, truncation point, read fault and interrupt",
 "No test reads a G-EQDSK file back; the defects fixed here (reading failed outright with the installed parser) show it is untested.",
 ["freegs/geqdsk.py", "freegs/control.py", "freegs/picard.py"],
 [("read", "freegs/geqdsk.py"), ("fit of coil currents", "freegs/control.py: ConstrainPsi2D*, ConstrainPsiNorm2D*")],
 [("machine", "coil currents and wall of the target machine", "Machine.coils, Machine.wall")],
 ["returned Equilibrium; machine coil currents and wall; exception seen by the caller"])

prop("P05", "The optimiser returns the best solution it ever evaluated",
 "Whatever the random stream, scores (including ties and infinite scores for failed evaluations), population size and number of generations, the optimiser returns an object whose score is the lowest of all evaluations made, and each per-generation report contains that lowest score so far with its object, which is one of the reported full-size population of objects with their own scores. No member's score ever gets worse from one generation to the next, and the number of evaluations is bounded by the population size times the generations plus one.",
 ["inputs", "histories", "fault_sequences"],
 "every random number stream, score landscape, failing evaluation pattern, population size >= 4, number of generations and controls",
 "Tests run a seeded optimisation of smooth functions and check that the answer is close; they cannot see a lost best candidate for other streams or failure patterns.",
 ["freegs/optimiser.py", "freegs/optimise.py"],
 [("optimise", "freegs/optimiser.py")],
 [("population", "list of (score, object)", "freegs/optimiser.py"), ("best", "lowest (score, object)", "freegs/optimiser.py")],
 ["calls of the measure function, monitor calls, returned object"])

prop("P06", "Optimising equilibria is isolated from its starting point and from failures",
 "Optimising an equilibrium never moves the controlled coils of the equilibrium it was given or exceeds the limits of a coil position control, and a candidate whose solve or evaluation fails can never be returned in place of one that succeeded. A user interrupt or an error in the monitor stops the optimisation and reaches the caller, and candidates are re-solved for their own coil positions before being measured.",
 ["inputs", "fault_sequences", "histories"],
 "every random stream, coil position limits (including zero and equal limits), failure pattern of the solver or measure and interrupt time",
 "The test optimises one current with a fixed seed; limits, failures and interrupts during evaluations are never exercised.",
 ["freegs/optimise.py", "freegs/optimiser.py"],
 [("solve_and_measure", "freegs/optimise.py"), ("CoilRadius/CoilHeight", "freegs/optimise.py"), ("mutate", "freegs/optimiser.py")],
 [("candidate equilibria", "deep copies with modified coils", "freegs/optimiser.py")],
 ["measure calls, returned equilibrium, starting equilibrium, exceptions"])

prop("P07", "New candidates combine three distinct other members of the population",
 "Each candidate the optimiser evaluates after the first generation takes at least one control from the difference formula of three distinct members of the previous generation, none of them the one it may replace, and leaves the remaining controls at the replaced member's values, while the initial population varies every control of the given object. Every other member can be picked for every role and every control can be the forced one, for any population of at least four and any number of controls including one.",
 ["inputs", "histories"],
 "every random number stream, population size >= 4, number of controls >= 1, crossover probability and weight",
 "The unit tests of the picker sample small cases with a fixed seed, so reachability and off-by-one exclusions at the ends of the index range are not observable.",
 ["freegs/optimiser.py"],
 [("pickUnique", "freegs/optimiser.py"), ("optimise", "freegs/optimiser.py")],
 [("population", "current generation", "freegs/optimiser.py")],
 ["control get/set values of evaluated candidates and populations given to the monitor"])

prop("P08", "The nonlinear solve returns only when converged, else raises",
 "The nonlinear solve returns only if the last iteration changed the flux by less than the requested relative or absolute tolerance with a converged boundary flux (and with a limited plasma if the caller asked to wait for one); it returns at the first iteration which does so, and otherwise raises within a bounded number of iterations. An error or interrupt in the coil control, profiles, boundary or linear solver during any iteration reaches the caller, and the reported convergence history is the true one.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "every sequence of linear-solver results (converging, oscillating, stalling, diverging, becoming limited), tolerances, blending, iteration limits, and failure at any iteration of any component",
 "Tests solve a few well-behaved cases that converge; non-convergence and mid-iteration failures never occur in them.",
 ["freegs/picard.py", "freegs/equilibrium.py"],
 [("solve", "freegs/picard.py")],
 [("iteration state", "previous/current flux and boundary flux", "freegs/picard.py")],
 ["return/raise of the solve; flux seen by profiles, solver, control at each iteration; returned convergence history"])

prop("P09", "After every solve the equilibrium's flux, field and current are consistent",
 "After any history of solves, current changes and failed solves, the plasma current is the integral of the stored current density, the flux at a grid point is the same whichever way it is queried, the plasma field is the derivative of the plasma flux, the linear equation and boundary condition hold for the stored flux and current density, and the axis, boundary and normalised flux belong to the current total flux. A plasma current or axis pressure the profiles were asked for is met, and for a plasma limited by the wall the boundary flux is that at the limiting wall point.",
 ["inputs", "histories", "fault_sequences"],
 "every history of linear and nonlinear solves (free and fixed boundary, 2nd and 4th order, limited or not, profile types), current changes and failed solves, on any grid",
 "Tests check individual solves on one configuration; stale cached values appear only after particular histories.",
 ["freegs/equilibrium.py", "freegs/boundary.py", "freegs/jtor.py"],
 [("solve", "freegs/equilibrium.py"), ("_updatePlasmaPsi/_updateBoundaryPsi", "freegs/equilibrium.py"), ("boundary conditions", "freegs/boundary.py")],
 [("plasma flux and its interpolation", "plasma_psi, psi_func", "freegs/equilibrium.py"), ("axis/boundary flux, mask", "psi_axis, psi_bndry, mask", "freegs/equilibrium.py")],
 ["psi(), psiRZ(), psiN(), psiNRZ(), plasmaBr(), plasmaBz(), Br(), Bz(), plasmaCurrent(), Jtor, psi_axis, psi_bndry, is_limited"])

prop("P10", "A failed solve step leaves the previous equilibrium in place",
 "If a linear solve step fails or is interrupted at any point before its result is stored, the plasma flux, its field, the plasma current, the current density and profiles in use are those of the previous equilibrium, and repeating the step gives the same result as if it had never failed. The same holds for a nonlinear solve which fails in its first step, once coil currents are put back; one which fails later leaves the plasma of its last completed step.",
 ["fault_sequences", "crash_points", "histories"],
 "every failure of the profiles, boundary condition or linear solver, and every line at which a user interrupt can arrive during a step, after any history",
 "Tests never make a solve step fail.",
 ["freegs/equilibrium.py", "freegs/boundary.py", "freegs/jtor.py"],
 [("solve", "freegs/equilibrium.py")],
 [("plasma flux, current, profiles", "state replaced by a step", "Equilibrium")],
 ["psi(), plasma_psi, plasmaBr/Bz, plasmaCurrent(), Jtor, pressure()/fpol() before and after the failed step; result of the retry"])

prop("P11", "Coil control meets targets, respects limits and touches only controlled coils",
 "Applying a coil control system to any equilibrium changes the currents only of coils under control, keeps them within the given per-coil limits and total-current limit, and when no limit is given and enough coils are controlled makes the requested X-points, equal-flux pairs and flux values hold. A fit to a whole flux map reproduces it when coil currents exist which do, and never makes the match worse. If fitting the currents fails or is interrupted the coil currents are those from before the call.",
 ["inputs", "histories", "fault_sequences"],
 "every machine (all coil kinds, any subset and order of controlled coils), starting currents, plasma, target set, limits, and failures during the fit",
 "Tests apply control to one machine with all coils controlled and never check individual currents, limits or failures.",
 ["freegs/control.py", "freegs/machine.py"],
 [("constrain and ConstrainPsi* controls", "freegs/control.py"), ("controlPsi/controlBr/controlBz/controlAdjust/setControlCurrents", "freegs/machine.py")],
 [("coil currents", "current in each coil or circuit", "Machine.coils")],
 ["coil currents and control flags after the call; Br, Bz, psiRZ at the targets"])

prop("P12", "Flux and field equal the sum over all current sources after any history",
 "After any sequence of changing currents, switching control, moving coils, querying and copying, the flux and poloidal field of a machine at any point is the sum over all its coils of current times turns times the field of their loops at their present positions, each circuit's coils carry the circuit current times their multiplier, and the total in an equilibrium is this plus the plasma's part. Interrupted or failed queries do not change later answers.",
 ["inputs", "histories", "fault_sequences"],
 "every machine of point, shaped, filament, multi-point, mirrored, circuit and solenoid coils and every sequence of changes and queries, including failing queries",
 "Tests check single coils in isolation; drift between the cached circuit/coil currents and positions only shows after particular sequences.",
 ["freegs/machine.py", "freegs/coil.py", "freegs/shaped_coil.py", "freegs/filament_coil.py", "freegs/multi_coil.py"],
 [("psi/Br/Bz and Green's function maps", "freegs/machine.py"), ("position setters", "freegs/shaped_coil.py, filament_coil.py, multi_coil.py"), ("circuit current setter", "freegs/machine.py: Circuit")],
 [("coil currents, positions, quadrature points", "state of each coil", "Coil subclasses, Circuit")],
 ["Machine.psi/Br/Bz, createPsiGreens/calcPsiFromGreens, Equilibrium.psi/psiRZ/Br/Bz, compared with an independent loop-field model"])

prop("P13", "Coil forces follow from the other currents and leave the machine unchanged",
 "The force on each coil is its total current times the field of all other sources (plus its own hoop force), independent of the order of coils and of whether a coil stands alone or belongs to a circuit carrying the same current, with vertical forces between the coils summing to zero. Calculating forces leaves every current as it was, even when the field calculation fails or is interrupted part way.",
 ["inputs", "histories", "fault_sequences"],
 "every machine of point, shaped, filament and unmirrored multi-point coils and circuits of them (a solenoid acts on the others but its own force is documented as not implemented), coil ordering and wiring, with and without plasma or current, and every failure point inside the field evaluations",
 "No test computes forces for circuits, or makes the calculation fail while a coil is switched off.",
 ["freegs/coil.py", "freegs/machine.py", "freegs/equilibrium.py"],
 [("getForces", "freegs/coil.py, freegs/machine.py")],
 [("coil current", "set to zero while evaluating the field of the others", "freegs/coil.py")],
 ["getForces() results and coil currents before/after"])

prop("P14", "Sensors report the present state, and keep the last reading while off",
 "After any history, taking measurements sets each switched-on sensor to the present value at its position (enclosed coil plus plasma current, field component along its direction, or flux), and leaves each switched-off sensor's last reading untouched. Measuring does not change the machine or plasma, and a measurement which fails part way does not affect later ones.",
 ["inputs", "histories", "fault_sequences"],
 "every machine (enclosed current: of point, shaped, filament, solenoid and unmirrored multi-point coils and circuits) and sensor set, sequence of current changes, coil moves, solves, on/off toggles and failing measurements, with or without plasma",
 "Sensor tests use one machine and single measurements with all sensors on.",
 ["freegs/machine.py"],
 [("get_measure of each sensor kind", "freegs/machine.py"), ("takeMeasurements/printMeasurements", "freegs/machine.py")],
 [("measurement, status", "last reading and on/off switch", "Sensor")],
 ["sensor.measurement after takeMeasurements/printMeasurements"])

prop("P15", "Independent equilibria do not affect each other in any interleaving",
 "Working on several equilibria with their own machines in any interleaving of operations, including from several threads and when operations on one of them fail, gives each exactly the result it has when worked on alone. A copied equilibrium is independent of the original.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving (operation level and line level) of solve, control, query, save, force and measurement operations on separate equilibria and machines",
 "Tests run each case alone, so hidden shared state (module caches, default arguments, class attributes, shared buffers) cannot show.",
 ["freegs/equilibrium.py", "freegs/machine.py", "freegs/picard.py", "freegs/control.py", "freegs/multigrid.py", "freegs/gradshafranov.py", "freegs/boundary.py"],
 [("all operations", "freegs/*")],
 [("module and class level state", "must not carry information between equilibria", "freegs/*")],
 ["observables of every equilibrium compared with its solo run"])

prop("P16", "Queries never change the equilibrium",
 "Reading any quantity of an equilibrium (flux, fields, profiles, safety factor, shape, betas, inductances, forces, measurements, plots, critical points, saving and exporting) any number of times and in any order, including queries that fail or are interrupted and concurrent readers, changes neither the answers of later queries nor the result of later solves.",
 ["schedules", "histories", "fault_sequences"],
 "every sequence and thread interleaving of queries (concurrent ones excluding force calculations, which are documented to switch coils off temporarily), on any solved equilibrium, with failing and interrupted queries",
 "Tests query a freshly solved equilibrium once.",
 ["freegs/equilibrium.py", "freegs/critical.py", "freegs/machine.py", "freegs/plotting.py", "freegs/fieldtracer.py"],
 [("query methods", "freegs/equilibrium.py"), ("find_critical/find_separatrix/find_safety/core_mask", "freegs/critical.py")],
 [("flux arrays, currents, masks, profile state", "must be unchanged", "Equilibrium, Machine, Profile")],
 ["all observables before/after, and a later solve compared with one on an unqueried twin"])

prop("P17", "Showing progress does not change the result",
 "A nonlinear solve, a G-EQDSK read or an optimisation gives the same result whether or not it is plotted, monitored or paused for any length of time, whatever read-only work runs in the event loop during a pause. Every step is shown, closing a window changes nothing, and an error or interrupt raised while drawing, printing or pausing reaches the caller.",
 ["schedules", "fault_sequences", "configurations"],
 "every choice of showing options, pause length, read-only callbacks executed during each pause, and error or interrupt at any pause",
 "Tests never show plots; the display loop runs user code in the middle of the iteration.",
 ["freegs/picard.py", "freegs/plotting.py", "freegs/optimise.py", "freegs/geqdsk.py"],
 [("show/pause branch", "freegs/picard.py"), ("PlotMonitor", "freegs/optimise.py"), ("plotEquilibrium", "freegs/plotting.py")],
 [("iteration state", "flux between plots", "freegs/picard.py")],
 ["result of the solve with and without display"])

prop("P18", "Green's functions give the flux and field of a circular loop",
 "The flux and field responses of a unit current loop agree with the analytic expressions everywhere off the loop.",
 ["inputs"], "every pair of points", "Tests sample a few points.",
 ["freegs/gradshafranov.py"], [("Greens, GreensBr, GreensBz", "freegs/gradshafranov.py")], [], ["return values"])
prop("P19", "Elliptic operators and linear solvers converge at their stated order",
 "Refining the grid reduces the error of the discretised equation at the stated order, and the multigrid solver reaches the direct solution.",
 ["inputs"], "every grid and right-hand side", "Tests use one manufactured solution.",
 ["freegs/gradshafranov.py", "freegs/multigrid.py"], [("GSsparse, GSsparse4thOrder, createVcycle", "freegs/gradshafranov.py, freegs/multigrid.py")], [], ["solution arrays"])
prop("P20", "Critical points are complete and correctly classified and ordered",
 "Every O- and X-point of a smooth flux map inside the domain is found once, classified correctly, with the primary ones first.",
 ["inputs"], "every flux map", "Tests use a few analytic maps.",
 ["freegs/critical.py"], [("find_critical", "freegs/critical.py")], [], ["return values"])
prop("P21", "The core mask selects exactly the confined region",
 "A grid point is in the mask exactly if it is connected to the axis inside the boundary flux surface.",
 ["inputs"], "every flux map and boundary value", "Tests use one map.",
 ["freegs/critical.py"], [("core_mask", "freegs/critical.py")], [], ["return values"])
prop("P22", "Polygon and quadrature helpers are exact to their order",
 "Areas, intersections, triangulations and quadrature weights are geometrically correct for every simple polygon.",
 ["inputs"], "every polygon", "Tests use a few polygons.",
 ["freegs/polygons.py", "freegs/quadrature.py"], [("area, intersect, triangulate, polygon_quad", "freegs/polygons.py, freegs/quadrature.py")], [], ["return values"])
prop("P23", "Global plasma diagnostics describe the present plasma",
 "After any history of solves, failed or interrupted solves, changes of coil currents, profiles, limiter or wall check, copies and interrupted queries, every global diagnostic of an equilibrium equals its "
 "definition for the flux map, currents and profiles it now has (after a failed or interrupted step, once a later one has completed): the separatrix and the shape parameters derived from it (geometric axis, radii, aspect ratio, elongation, triangularity), plasma volume, average "
 "pressure and stored energy, poloidal and toroidal betas, internal inductances, pressure and f profiles as integrals of p' and ff', toroidal field (vacuum outside the plasma, sign of fvac), safety factor, "
 "and whether the plasma intersects the wall.",
 ["histories", "fault_sequences", "inputs"], "every history of solves, changes, failures and interruptions of an equilibrium with a diverted or limited plasma, any machine, profile kind and sign of current and field",
 "Tests evaluate a few diagnostics of one freshly solved equilibrium.",
 ["freegs/equilibrium.py", "freegs/critical.py", "freegs/jtor.py"],
 [("separatrix, shape parameters, betas, inductances, energies, q, Btor", "freegs/equilibrium.py"), ("find_separatrix, find_safety, core_mask", "freegs/critical.py"), ("Profile.pressure, fpol", "freegs/jtor.py")],
 [("plasma_psi, mask, psi_axis, psi_bndry, profiles", "what the diagnostics are computed from", "Equilibrium")],
 ["return values of the diagnostics, compared with an independent evaluation on the same flux map"])
prop("P24", "Field lines follow the magnetic field and stop at the wall",
 "Traced field lines stay tangent to the total field, conserve flux and end at the wall or domain edge.",
 ["inputs"], "every equilibrium and starting point", "No test traces field lines.",
 ["freegs/fieldtracer.py"], [("FieldTracer.follow", "freegs/fieldtracer.py")], [], ["return values"])
prop("P25", "Changing resolution or domain keeps the same plasma",
 "Refining, coarsening or changing the domain of an equilibrium, at any point of its history, gives an equilibrium of the same machine on exactly the requested grid, with the same boundary condition, order, "
 "limiter check and profiles, and the same plasma current and flux up to interpolation (for a new domain, discretisation) error; it is consistent and can be solved. The original is left exactly as it was, "
 "also if the operation fails or is interrupted and after the result is solved.",
 ["histories", "fault_sequences", "inputs"], "every history of solves, current changes and grid changes, with failures and interruptions at any point of them",
 "One test refines one equilibrium.",
 ["freegs/equilibrium.py"], [("refine, coarsen, newDomain", "freegs/equilibrium.py")],
 [("plasma_psi, profiles, boundary condition, order", "carried to the new equilibrium, unshared", "Equilibrium")], ["the returned equilibrium", "the original before and after"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
