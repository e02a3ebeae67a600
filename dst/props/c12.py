"""C12: SMS-EMOA survival keeps the best fronts and the largest contributions."""

from copy import deepcopy

import numpy as np

from .. import models, world
from ..core import Violation
from ..world import INJECTED, Calls

N_SAMPLES = 2000  # of the Monte Carlo estimate used for three or more objectives


def setup():
    world.import_hvd()
    from hvd.moea import SMSEMOA  # noqa: F401


def contribution(F, i, ref):
    """volume dominated by point i alone"""
    below = np.maximum(np.delete(F, i, axis=0), F[i])
    if np.any(F[i] >= ref):
        return 0.0
    return float(np.prod(ref - F[i])) - models.hv(below, ref)


def judge_split(sim, F, kept, ref):
    """the points kept of a front are those left after repeatedly removing a least contributor"""
    n, m = F.shape
    removed = [i for i in range(n) if i not in kept]
    V = float(np.prod(np.maximum(ref - F.min(axis=0), 0)))
    cache = {}

    def contributions(left):
        if left not in cache:
            rows = sorted(left)
            c = {}
            for j, i in enumerate(rows):
                c[i] = contribution(F[rows], j, ref)
            cache[left] = c
        return cache[left]

    def slack(a, b):
        if m == 2:
            return 1e-9 * V
        p = max(a, 0) / V + max(b, 0) / V if V > 0 else 0.0
        return V * 6.5 * np.sqrt(p / N_SAMPLES) + 1e-9 * V

    dead = set()

    def possible(left):
        """the remaining removals can have happened in some order"""
        todo = [i for i in removed if i in left]
        if not todo:
            return True
        if left in dead:
            return False
        c = contributions(left)
        least = min(c.values())
        for i in sorted(todo, key=c.get):
            if c[i] <= least + slack(c[i], least) and possible(left - {i}):
                return True
        dead.add(left)
        return False

    if not possible(frozenset(range(n))):
        c = contributions(frozenset(range(n)))
        raise Violation(
            "least-contributor", f"{m} objectives, contributions {[round(v, 6) for v in c.values()]}: removed {removed}"
        )
    sim.probe(f"splits-{m}d")


def judge(sim, F, feasible, cv, chosen, n_survive, ideal, nadir, eps, where):
    """`chosen`: indices of the survivors, in their order"""
    n = len(F)
    want = min(n_survive, n)
    if len(chosen) != want:
        raise Violation("survivor-count", f"{where}: {len(chosen)} instead of {want}")
    if len(set(chosen)) != len(chosen):
        raise Violation("duplicated", where)
    good = [i for i in range(n) if feasible[i]]
    bad = [i for i in range(n) if not feasible[i]]
    flags = [feasible[i] for i in chosen]
    if flags != sorted(flags, reverse=True):
        raise Violation("infeasible-first", where)
    k_good, k_bad = [i for i in chosen if feasible[i]], [i for i in chosen if not feasible[i]]
    if len(k_good) != min(len(good), want):
        raise Violation("feasible-lost", f"{where}: {len(k_good)} of {len(good)} feasible ones in {want}")
    if k_bad:
        worst = max(cv[i] for i in k_bad)
        better = [i for i in bad if i not in k_bad and cv[i] < worst - 1e-12]
        if better:
            raise Violation("violation-order", f"{where}: {cv[better[0]]} lost, {worst} kept")
        sim.probe("infeasible-checked")
    if not k_good:
        return
    F_good = F[good]
    taken = 0
    for k, front in enumerate(models.fronts(F_good)):
        front = [good[i] for i in front]
        inside = [i for i in front if i in set(k_good)]
        room = len(k_good) - taken
        if len(inside) != min(len(front), room):
            raise Violation("front-order", f"{where}: {len(inside)} of the {len(front)} points of front {k} for {room} places")
        if 0 < len(inside) < len(front):
            ideal_ = F_good.min(axis=0) if ideal is None else ideal
            nadir_ = F_good.max(axis=0) if nadir is None else nadir
            scale = np.where(nadir_ == ideal_, 1.0, nadir_ - ideal_)
            Z = (F[front] - ideal_) / scale
            if np.max(np.abs(Z)) > 1e6:
                sim.probe("degenerate-scale")
            elif len(front) - len(inside) <= 10:
                judge_split(sim, Z, {j for j, i in enumerate(front) if i in inside}, np.full(F.shape[1], 1.0 + eps))
        taken += len(inside)
        if room <= len(front):
            break


def survival_history(sim):
    """survival steps on given populations"""
    from hvd.moea.sms_emoa import LeastHypervolumeContributionSurvival
    from pymoo.core.population import Population

    from .. import evo

    calls = Calls(sim)
    n_ieq = sim.pick([0, 0, 1], "n_ieq")
    problem = evo.EvoProblem(sim, calls, n_obj=sim.pick([2, 3, 2, 3, 4], "n_obj"), n_ieq=n_ieq)
    eps = sim.pick([10.0, 0.1, 0.5, 1.0], "eps")
    rng = sim.rng("populations")
    survival = LeastHypervolumeContributionSurvival() if eps == 10.0 else LeastHypervolumeContributionSurvival(eps=eps)
    stream = evo.seeded(rng.randint(1 << 30))
    m = problem.n_obj
    sim.cover("survival", m, n_ieq, eps)
    for step in range(sim.integer(1, 5, "n-steps")):
        n = sim.integer(1, 14, "n")
        shape = sim.pick(["front", "cloud", "curve", "grid"], "shape")
        if shape == "front":
            F = rng.dirichlet(np.ones(m), n)
        elif shape == "cloud":
            F = rng.rand(n, m)
        elif shape == "curve":
            F = rng.dirichlet(np.ones(m), n)
            F = F / np.linalg.norm(F, axis=1)[:, None] * sim.pick([-1, 1], "curvature")
        else:
            F = rng.randint(0, 4, (n, m)).astype(float)
        if n > 2 and sim.flip(0.3, "duplicates"):
            F[n // 2] = F[0]
        if sim.flip(0.3, "scaled"):
            F = F * np.r_[100.0, np.ones(m - 1)] - 3
        pop = Population.new("X", rng.rand(n, problem.n_var), "F", F.copy())
        G = rng.randn(n, max(n_ieq, 1)) - 0.5
        if n_ieq:
            pop.set("G", G.copy())
        pop.apply(lambda ind: ind.evaluated.update(["F", "G", "H"]))
        cv = np.maximum(G, 0).sum(axis=1) if n_ieq else np.zeros(n)
        feasible = [bool(v <= 0) for v in cv]
        n_survive = sim.integer(1, n, "n_survive")
        bounds = sim.pick(["none", "given", "narrow"], "bounds")
        ideal = nadir = None
        if bounds == "given":
            ideal, nadir = F.min(axis=0), F.max(axis=0) + 1e-32
        elif bounds == "narrow":  # of a part of the population
            part = F[: max(1, n // 2)]
            ideal, nadir = part.min(axis=0), part.max(axis=0) + 1e-32
        where = f"step {step} ({shape}, {n_survive} of {n}, {m} objectives)"
        sim.cover(n, shape, n_survive, bounds)
        inds = list(pop)
        with evo.own_random(stream):
            out = survival.do(problem, pop, n_survive=n_survive, ideal=ideal, nadir=nadir)
        if list(pop) != inds or not np.array_equal(pop.get("F"), F):
            raise Violation("input-modified", where)
        index = {id(ind): i for i, ind in enumerate(inds)}
        if any(id(ind) not in index for ind in out):
            raise Violation("invented", where)
        judge(sim, F, feasible, cv, [index[id(ind)] for ind in out], n_survive, ideal, nadir, eps, where)
        sim.probe("survivals")
        sim.absorb(out.get("F"))


class Run:
    def __init__(self, sim, config, calls):
        from hvd.moea import SMSEMOA
        from pymoo.termination import get_termination

        from .. import evo

        self.sim, self.c, self.calls, self.evo = sim, config, calls, evo
        calls.last = None
        self.problem = config["problem"](calls)
        kw = {} if config["n_off"] is None else dict(n_offsprings=config["n_off"])
        if config["normalize"] is not None:
            kw.update(normalize=config["normalize"])
        self.alg = SMSEMOA(pop_size=config["size"], **kw)
        self.stream = evo.seeded(config["seed"])
        with evo.own_random(self.stream):
            self.alg.setup(self.problem, termination=get_termination("n_gen", config["n_gen"]))

    def step(self, judged=True):
        """one generation; a failing one is repeated with the random numbers it had"""
        alg, p, sim = self.alg, self.problem, self.sim
        while True:
            parents = [] if alg.pop is None else list(alg.pop)
            was = [(i.X.copy(), i.F.copy()) for i in parents]
            seen, random_was, started = len(p.seen), self.stream[0], alg.is_initialized
            fired = len(self.calls.fired)
            try:
                with self.evo.own_random(self.stream):
                    alg.next()
            except INJECTED as e:
                if e is not self.calls.last:
                    raise Violation("failure-changed", repr(e)) from e
                sim.probe("failed-steps")
                now = [] if alg.pop is None else list(alg.pop)
                if started and (now != parents or any(not (np.array_equal(i.X, x) and np.array_equal(i.F, f)) for i, (x, f) in zip(now, was))):
                    raise Violation("population-changed-by-failure", "")
                self.stream[0] = random_was
                continue
            break
        if len(self.calls.fired) > fired:
            raise Violation("failure-swallowed", f"{self.calls.fired[-1]}")
        if not judged:
            return
        made = np.array(p.seen[seen:]).reshape(-1, p.n_var)
        out = list(alg.pop)
        X = np.vstack([np.array([x for x, _ in was]).reshape(-1, p.n_var), made])
        F = p.pure(X)["F"]
        key = {x.tobytes(): i for i, x in enumerate(X)}
        where = f"generation {alg.n_gen}: {len(parents)} parents, {len(made)} offspring"
        if len(key) != len(X):
            raise Violation("same-individual-twice", where)
        for ind in out:
            if ind.X.tobytes() not in key:
                raise Violation("invented", where)
            if not np.array_equal(ind.F, F[key[ind.X.tobytes()]]):
                raise Violation("wrong-values", where)
        cv = p.violation(X)
        feasible = [bool(v <= 0) for v in cv]
        if started:
            kept = np.array([f for _, f in was])
            ideal, nadir = (None, None) if self.c["normalize"] is False else (kept.min(axis=0), kept.max(axis=0) + 1e-32)
            n_survive = self.c["size"]
        else:
            ideal = nadir = None
            n_survive = len(made)
        judge(sim, F, feasible, cv, [key[i.X.tobytes()] for i in out], n_survive, ideal, nadir, 10.0, where)
        sim.probe("generations")


def make_config(sim):
    from .. import evo

    rng = sim.rng("config")
    choice_seed = rng.randint(1 << 30)
    n_ieq, n_eq = sim.pick([(0, 0), (1, 0), (2, 0), (0, 0)], "constraints"), 0
    n_ieq, n_eq = n_ieq
    n_obj, n_var = 2 + sim.choose(2, "n_obj"), sim.integer(1, 3, "n_var")
    grid = sim.pick([0, 0, 6], "grid")
    flat = sim.flip(0.08, "flat-box")

    class Fixed:
        def rng(self, label=""):
            return np.random.RandomState(choice_seed)

        def pick(self, seq, label=""):
            return grid

    def problem(calls):
        p = evo.EvoProblem(Fixed(), calls, n_var, n_obj, n_ieq, n_eq)
        if flat:  # nothing new can be generated
            p.xl = p.xu = np.full(n_var, 0.5)
        return p

    size = sim.integer(2, 9, "size")
    config = dict(
        problem=problem, size=size, n_off=sim.pick([None, 1, size // 2 or 1], "n_off"), normalize=sim.pick([None, True, False], "normalize"),
        seed=rng.randint(1 << 30), n_gen=sim.integer(2, 6, "n_gen"),
    )
    return config, (n_obj, n_var, n_ieq, n_eq, grid, flat, size, config["n_off"], config["normalize"], config["n_gen"])


def run(sim):
    from .. import evo

    if sim.flip(0.5, "survival-mode"):
        return survival_history(sim)
    runs, twins = [], []
    for _ in range(1 + sim.choose(2, "algorithms")):
        config, key = make_config(sim)
        calls = Calls(sim)
        for _ in range(sim.integer(0, 4, "n-faults")):
            calls.plan[(sim.pick(["evaluate", "evaluated"], "site"), sim.choose(5 * config["size"], "at"))] = sim.pick(evo.KINDS, "kind")
        sim.cover(key, tuple(sorted(calls.plan.items())))
        runs.append(Run(sim, config, calls))
        twins.append(Run(sim, config, Calls(sim, latency=False)))
    sim.sample.update(sizes=[r.c["size"] for r in runs])
    for _ in range(30):
        live = [j for j, r in enumerate(runs) if r.alg.has_next()]
        if not live:
            break
        j = sim.pick(live, "which")
        r, twin = runs[j], twins[j]
        if sim.flip(0.1, "copy"):
            r.alg = deepcopy(r.alg)
            sim.probe("copies")
        r.step()
        twin.step(judged=False)
        a, b = evo.snapshot(r.alg.pop), evo.snapshot(twin.alg.pop)
        if not (np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])):
            raise Violation("failures-change-survivors", f"generation {r.alg.n_gen}")
        sim.probe("generations-compared")
        sim.absorb(a[0])
    sim.log("end")
