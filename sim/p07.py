"""P07: new candidates combine three distinct other members"""
import itertools

import numpy as np

from . import p05

RUNS = {"quick": 400, "thorough": 12000}
SHRINK = ["accept"]
RULE = "A plan is a population size, controls, differential weight, crossover probability, a random stream (numpy's, or one with extreme " \
       "draws) and a rule which accepts or rejects candidates; every candidate is decoded against the population it was made from. " \
       "Long runs with a fixed population count which members were used in which role."
STATE_MEASURE = "distinct (population size, member, partners) combinations decoded"
TIME_UNIT = "evaluations"
REAL = ["freegs.optimiser"]
STUB = ["optimised objects, controls, measure and monitor (recording stubs)", "random stream (seeded, or extreme draws)"]
ASSUMPTIONS = ["candidates are made in the order of the members they may replace", "reachability of partners and controls is statistical: with "
               "at least 400 candidates per population slot a role which is possible is missed with probability below 1e-25"]


def gen(rng, tier):
    reach = rng.flip(0.35)
    N = rng.choice([4, 4, 5, 6, 7]) if reach else rng.choice([4, 4, 5, 6, 7, 8, 9])
    nc = rng.choice([1, 1, 2, 3, 4, 6])
    plan = {"N": N, "reach": reach, "maxgen": (400 if N < 6 else 600) if reach else rng.choice([1, 2, 5, 20]), "CR": rng.choice([0.0, 0.0, 0.3, 0.5, 1.0]),
            "F": rng.choice([0.37, 0.5, 1.0, 1.0, 1.3, 2.0]), "stream": p05.gen_stream(rng),
            "start": [rng.choice([0.0, rng.uni(0.5, 10), rng.uni(-10, -0.5), rng.uni(100, 1000)]) for _ in range(nc)]}
    if reach:
        plan["stream"]["extreme"] = 0.0
        plan["accept"] = []
    else:
        plan["accept"] = [rng.randrange(N * (plan["maxgen"] + 1)) for _ in range(rng.choice([0, 1, 3, 10, 30]))]
    return plan


def run(plan, sim):
    from freegs import optimiser

    N, nc, F = plan["N"], len(plan["start"]), plan["F"]
    p05.random_stream(plan["stream"])
    accept = set(plan["accept"])
    evals = []  # (score, values) of every evaluation
    pop = []  # values of the members candidates are made from
    triples = {j: np.array(list(itertools.permutations([k for k in range(N) if k != j], 3))) for j in range(N)}
    used = {(r, j, k): 0 for r in range(3) for j in range(N) for k in range(N) if k != j}
    forced = [0] * nc
    alone = [0] * nc
    state = {"gen": 0, "scores": [], "low": 0.0, "P": None}
    start = p05.Obj(plan["start"])
    cross = [0, 0]

    def judge(j, v):
        """v was made to replace member j of pop"""
        P = state["P"]
        c = np.array(v)
        tol = 1e-9 * state["scale"]
        T = triples[j]
        mutants = P[T[:, 0]] + F * (P[T[:, 1]] - P[T[:, 2]])
        from_mutant = np.abs(mutants - c) <= tol
        from_parent = np.abs(P[j] - c) <= tol
        sim.checks += 1
        ok = np.all(from_mutant | from_parent, axis=1) & np.any(from_mutant, axis=1)
        if not ok.any():
            sim.check(False, "candidate-not-from-three-others",
                      "candidate %s for member %d of %s (F=%r) is not made of three distinct other members" % (v, j, pop, F))
        best = np.flatnonzero(ok)
        changed = [i for i in range(nc) if not from_parent[i]]
        if len(best) == 1:
            a, b, d = (int(x) for x in T[best[0]])
            used[0, j, a] += 1
            used[1, j, b] += 1
            used[2, j, d] += 1
            if not plan["reach"]:
                sim.event("candidate", j, a, b, d, changed)
            sim.state(N, j, a, b, d)
        for i in changed:
            forced[i] += 1
        if len(changed) == 1:
            alone[changed[0]] += 1
        cross[0] += 1
        cross[1] += len(changed)
        if plan["CR"] == 0.0:
            sim.check(len(changed) <= 1, "control-not-kept", "CR=0, but controls %s were changed at once" % (changed,))
        if plan["CR"] == 1.0:
            sim.check(np.any(np.all(from_mutant, axis=1)), "control-not-crossed", "CR=1, but not every control is taken from the formula")

    def refresh():
        state["P"] = np.array(pop)
        state["scale"] = max(1.0, float(np.max(np.abs(state["P"])))) * (1 + F)

    def measure(obj):
        k = len(evals)
        if k < N:
            if k > 0:
                for i, (x, x0) in enumerate(zip(obj.v, plan["start"])):
                    sim.check(x != x0 or plan["stream"]["extreme"], "initial-control-not-varied", "control %d of initial member %d" % (i, k))
                    if abs(x0) > 1e-6:
                        sim.check(abs(x - x0) <= 0.1 * abs(x0), "initial-variation-too-large", "control %d was %g, varied to %g" % (i, x0, x))
            pop.append(list(obj.v))
            score = 0.0
            if k == N - 1:
                refresh()
        else:
            judge((k - N) % N, obj.v)
            if k in accept:
                state["low"] -= 1.0
                score = state["low"]
            else:
                score = float("inf") if k % 3 else 1e9
        obj.tag = k
        evals.append((score, list(obj.v)))
        sim.time += 1
        return score

    def monitor(generation, best, population):
        sim.check(len(population) == N, "population-size", "%d members" % len(population))
        base = N * (generation + 1)
        for j, (score, obj) in enumerate(population):
            if base + j in accept:
                sim.check(obj.v == evals[base + j][1], "replaced-other-member", "accepted candidate %d is not member %d" % (base + j, j))
            else:
                sim.check(obj.v == pop[j], "member-changed", lambda: "member %d is %s, was %s" % (j, obj.v, pop[j]))
        pop[:] = [list(obj.v) for _, obj in population]
        refresh()

    optimiser.optimise(start, [p05.Control(i) for i in range(nc)], measure, maxgen=plan["maxgen"], N=N, CR=plan["CR"], F=F, monitor=monitor)
    sim.event("changed", cross)
    if plan["reach"]:
        distinct = len({tuple(p) for p in pop}) == N
        if distinct and F not in (0.0,) and not _ambiguous(state["P"], triples, F, state["scale"]):
            for (r, j, k), n in sorted(used.items()):
                sim.check(n > 0, "member-never-picked", "member %d never has role %d for member %d in %d generations" % (k, r, j, plan["maxgen"]))
            if plan["CR"] < 1.0:
                for i in range(nc):
                    sim.check(forced[i] > 0, "control-never-forced", "control %d of %d was never changed" % (i, nc))
                    likely = cross[0] / nc * (1.0 - plan["CR"]) ** (nc - 1) > 60
                    sim.check(not likely or alone[i] > 0, "control-never-forced", "control %d of %d was never the forced one" % (i, nc))
            sim.probe("reachability-decided")
    if plan["CR"] == 0.3 and nc >= 3 and cross[0] >= 1000:
        mean = cross[1] / cross[0]
        want = 1 + 0.3 * (nc - 1)
        sim.check(abs(mean - want) < 0.35, "crossover-rate", "on average %g controls are changed, expected %g" % (mean, want))


def _ambiguous(P, triples, F, scale):
    """Different partners would give the same candidate"""
    tol = 3e-9 * scale
    for j, T in triples.items():
        m = P[T[:, 0]] + F * (P[T[:, 1]] - P[T[:, 2]])
        for i in range(P.shape[1]):
            x = np.sort(m[:, i])
            if np.any(np.diff(x) <= tol) or np.any(np.abs(x - P[j, i]) <= tol):
                return True
    return False
