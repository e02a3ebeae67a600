"""C11: MOEA/D advances one generation per step with a sound epsilon comparison."""

from copy import deepcopy

import numpy as np

from .. import world
from ..core import Violation
from ..world import INJECTED, Calls

RTOL = 1e-10


def setup():
    world.import_hvd()
    from hvd.moea import ConstraintAwareMOEAD  # noqa: F401


def tchebicheff(F, w, ideal):
    return np.max(np.abs(F - ideal) * w, axis=-1)


def pbi(F, w, ideal, theta=5.0):
    d = F - ideal
    n = w / np.linalg.norm(w)
    d1 = d @ n
    return np.abs(d1) + theta * np.linalg.norm(d - d1[..., None] * n, axis=-1) if np.ndim(d1) else np.abs(d1) + theta * np.linalg.norm(d - d1 * n)


class Run:
    """one algorithm, watched"""

    def __init__(self, config, calls, check):
        from hvd.moea import ConstraintAwareMOEAD
        from pymoo.decomposition.pbi import PBI
        from pymoo.decomposition.tchebicheff import Tchebicheff
        from pymoo.termination import get_termination

        from .. import evo

        self.config, self.calls, self.check = config, calls, check
        self.sim = config["sim"]
        self.problem = config["problem"](calls)
        decomposition = {"default": None, "pbi": PBI(), "tchebicheff": Tchebicheff()}[config["decomposition"]]
        extra = {} if config["perc"] is None else dict(perc_eps_until=config["perc"])
        self.alg = ConstraintAwareMOEAD(
            config["W"].copy(), n_neighbors=config["T"], prob_neighbor_mating=0.7, decomposition=decomposition, **extra
        )
        self.stream = evo.seeded(config["seed"])
        self.evo = evo
        self.events = []  # (k, before, off, after) of the current step
        with evo.own_random(self.stream):
            self.alg.setup(self.problem, termination=get_termination(*config["termination"]), seed=config["alg_seed"])
        self.watch()
        self.dead = False

    def watch(self):
        alg = self.alg
        alg.__dict__.pop("_replace", None)
        original = alg._replace

        def watched(k, off):
            before = [(ind, np.array(ind.F), np.array(ind.X)) for ind in alg.pop]
            ideal, perc = np.array(alg.ideal), alg.termination.perc
            original(k, off)
            self.events.append((k, before, off, list(alg.pop), ideal, perc))

        alg._replace = watched

    def start(self):
        """initialise, however often that fails"""
        for _ in range(8):
            try:
                with self.evo.own_random(self.stream):
                    self.alg.next()
            except INJECTED as e:
                self.handle(e)
                continue
            break
        else:
            raise Violation("no-initialisation", "initialisation does not succeed")
        alg = self.alg
        if not alg.is_initialized:
            raise Violation("not-initialised", "the first step returned")
        X, F = self.evo.snapshot(alg.pop)
        if len(X) != len(self.config["W"]):
            raise Violation("population-size", f"{len(X)}")
        self.initial_cv = float(self.problem.violation(X).mean())
        self.ideal = F.min(axis=0)

    def handle(self, e):
        if e is not self.calls.last:
            raise Violation("failure-changed", repr(e)) from e
        self.sim.probe("failed-steps")

    def step(self):
        """one generation, resumed after failures"""
        alg, n = self.alg, len(self.config["W"])
        generation, seen, self.events = alg.n_gen, len(self.problem.seen), []
        self.first_perc = alg.termination.perc
        failures = 0
        while True:
            pop = [(ind, np.array(ind.X), np.array(ind.F)) for ind in alg.pop]
            n_events = len(self.events)
            try:
                with self.evo.own_random(self.stream):
                    alg.next()
            except INJECTED as e:
                self.handle(e)
                failures += 1
                if alg.n_gen != generation:
                    raise Violation("generation-counted-early", "")
                if len(self.events) == n_events and [i for i, _, _ in pop] != list(alg.pop):
                    raise Violation("population-changed-by-failure", "")
                if len(self.problem.seen) - seen > n:
                    raise Violation("offspring-count", f"{len(self.problem.seen) - seen} of {n}")
                continue
            break
        made = len(self.problem.seen) - seen
        if made != n:
            raise Violation("offspring-count", f"{made} offspring for {n} subproblems, {failures} failures in between")
        if alg.n_gen != generation + 1:
            raise Violation("generation-count", f"{alg.n_gen} after {generation}")
        if sorted(k for k, *_ in self.events) != list(range(n)):
            raise Violation("subproblems", f"{[k for k, *_ in self.events]}")
        offspring = np.array([e[2].X for e in self.events])
        if not np.array_equal(offspring, np.array(self.problem.seen[seen:])):
            raise Violation("offspring-lost", "those compared are not those evaluated")
        if self.check:
            for event in self.events:
                self.judge(*event)
            X, F = self.evo.snapshot(alg.pop)
            if not np.array_equal(F, self.problem.pure(X)["F"]):
                raise Violation("wrong-values", "objective values of the population")
        self.sim.probe("generations")

    def judge(self, k, before, off, after, ideal, perc):
        p, c, sim = self.problem, self.config, self.sim
        W = c["W"]
        f = p.pure(off.X)["F"][0]
        if not np.array_equal(off.F, f):
            raise Violation("wrong-values", "objective values of an offspring")
        self.ideal = np.minimum(self.ideal, f)
        D = np.linalg.norm(W - W[k], axis=1)
        T = min(c["T"], len(W))
        last = np.sort(D)[T - 1]
        surely, maybe = D < last - 1e-9, D <= last + 1e-9
        changed = np.array([a is not b[0] for a, b in zip(after, before)])
        for a, b in zip(after, before):
            if a is not b[0] and a is not off:
                raise Violation("stranger", "an individual that is neither the old one nor the offspring")
            if a is b[0] and not np.array_equal(a.F, b[1]) or not np.array_equal(b[0].X, b[2]):
                raise Violation("individual-modified", "")
        if np.any(changed & ~maybe):
            raise Violation("replaced-beyond-neighbourhood", f"subproblem {k}")
        scalar = {"pbi": pbi, "tchebicheff": tchebicheff}[c["scalar"]]
        cv = p.violation(np.array([b[2] for b in before]))
        cv_off = float(p.violation(off.X)[0])
        eps = 0.0
        if p.has_constraints():
            until = 0.8 if c["perc"] is None else c["perc"]
            eps = max(0.0, 1 - perc / until) * self.initial_cv
        v, v_off = np.maximum(cv - eps, 0), max(cv_off - eps, 0)
        tol = 1e-9 * (1 + self.initial_cv + cv.max())
        if np.any(np.abs(cv[cv > 0] - eps) < tol) or (cv_off > 0 and abs(cv_off - eps) < tol):
            sim.probe("near-tolerance")
            return
        sim.probe("beyond-tolerance", int(v_off > 0))
        for n in np.nonzero(maybe)[0]:
            a, b = scalar(f, W[n], self.ideal), scalar(before[n][1], W[n], self.ideal)
            if v_off > 0 or v[n] > 0:
                better, sure = v_off < v[n], abs(v_off - v[n]) > tol
            else:
                better, sure = a < b, abs(a - b) > RTOL * (1 + abs(a))
            if cv_off == cv[n] and (v_off > 0 or np.array_equal(f, before[n][1])):
                better, sure = False, True  # the same
            if not sure:
                # equal violations beyond the tolerance, or equal values
                continue
            if changed[n] and not better:
                raise Violation("replaced-by-worse", f"subproblem {n}: violation {cv[n]} (eps {eps}) {b} replaced by {cv_off}, {a}")
            if surely[n] and better and not changed[n]:
                raise Violation("not-replaced-by-better", f"subproblem {n}: violation {cv[n]} (eps {eps}) {b} kept against {cv_off}, {a}")
            sim.probe("comparisons")
            if better and v[n] > 0:
                sim.probe("decided-by-violation")


def make_config(sim):
    from .. import evo

    n_ieq, n_eq = sim.pick([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (1, 0)], "constraints")
    n_obj = 2 + sim.choose(2, "n_obj")
    rng = sim.rng("weights")
    n = sim.integer(2, 9, "subproblems")
    if n_obj == 2 and sim.flip(0.6, "uniform"):
        t = np.linspace(0, 1, n)
        W = np.c_[t, 1 - t]
    else:
        W = rng.dirichlet(np.ones(n_obj), n)
    choice_seed = sim.rng("problem-seed").randint(1 << 30)
    grid = sim.pick([0, 0, 0, 8], "grid")
    n_var = sim.integer(1, 4, "n_var")

    class Fixed:
        """the same problem for each of the compared runs"""

        def rng(self, label=""):
            return np.random.RandomState(choice_seed)

        def pick(self, seq, label=""):
            return grid

    decomposition = sim.pick(["default", "pbi", "tchebicheff"], "decomposition")
    n_gen = sim.integer(2, 6, "n_gen")
    config = dict(
        sim=sim, problem=lambda calls: evo.EvoProblem(Fixed(), calls, n_var, n_obj, n_ieq, n_eq), W=W,
        T=sim.integer(1, n, "T"), decomposition=decomposition,
        scalar=decomposition if decomposition != "default" else ("tchebicheff" if n_obj <= 2 else "pbi"),
        perc=sim.pick([None, 0.8, 0.5, 1.0, 0.2], "perc"), seed=rng.randint(1 << 30),
        alg_seed=sim.pick([None, 1], "alg-seed"),
        termination=("n_gen", n_gen) if sim.flip(0.6, "by-generation") else ("n_eval", n_gen * n - sim.choose(n, "cut")),
    )
    while config["T"] < 2 and n > 2:  # mating needs two parents from the neighbourhood
        config["T"] = 2
    return config, (n_obj, n_var, n_ieq, n_eq, n, config["T"], decomposition, config["perc"], config["termination"], grid)


def run(sim):
    from .. import evo

    n_alg = 1 + sim.choose(2, "algorithms")
    runs, twins = [], []
    for _ in range(n_alg):
        config, key = make_config(sim)
        if config["T"] < 2:
            config["T"] = 2
        sim.cover(key)
        calls = Calls(sim)
        calls.last = None
        n = len(config["W"])
        clean_start = not sim.flip(0.2, "failing-start")
        r = Run(config, calls, check=True)
        if not clean_start:
            calls.plan[("evaluate", sim.choose(n, "at"))] = sim.pick(evo.KINDS, "kind")
        twin = None
        if clean_start:
            twin = Run(config, Calls(sim, latency=False), check=False)
            twin.start()
        r.start()
        base = calls.count.get("evaluate", 0), calls.count.get("evaluated", 0)
        for _ in range(sim.integer(0, 4, "n-faults")):
            s = sim.choose(2, "site")
            calls.plan[(["evaluate", "evaluated"][s], base[s] + sim.choose(4 * n, "at"))] = sim.pick(evo.KINDS, "kind")
        sim.cover(tuple(sorted(calls.plan.items())))
        runs.append(r)
        twins.append(twin)
    sim.sample.update(algorithms=n_alg, subproblems=[len(r.config["W"]) for r in runs])
    # generations of the algorithms in any order
    for i in range(40):
        live = [j for j, r in enumerate(runs) if r.alg.has_next()]
        if not live:
            break
        j = sim.pick(live, "which")
        r, twin = runs[j], twins[j]
        if sim.flip(0.1, "copy"):
            # the population is handed out, copied, and the algorithm goes on as a copy of itself
            r.alg.__dict__.pop("_replace", None)
            r.alg = deepcopy(r.alg)
            r.watch()
            sim.probe("copies")
        r.step()
        if twin is not None:
            twin.step()
            a, b = evo.snapshot(r.alg.pop), evo.snapshot(twin.alg.pop)
            if not (np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])):
                raise Violation("failures-change-the-run", f"generation {r.alg.n_gen}")
            if r.alg.n_gen != twin.alg.n_gen or r.alg.has_next() != twin.alg.has_next():
                raise Violation("failures-change-the-run", "generation or termination")
            sim.probe("generations-compared")
        sim.absorb(evo.snapshot(r.alg.pop)[0])
    for r in runs:
        kind, limit = r.config["termination"]
        # the budget is exhausted: as many generations as it holds
        n = len(r.config["W"])
        want = limit if kind == "n_gen" else -(-limit // n)
        if r.alg.n_gen - 1 != want and not r.alg.has_next():
            raise Violation("generations-in-all", f"{r.alg.n_gen - 1} instead of {want}")
    sim.log("end")
