"""C05: concurrent optimizers and indicators do not influence each other or the process."""

import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np

from .. import world
from ..core import Sim, Violation
from ..threads import Scheduler
from ..world import CALLBACK_FAULTS, INJECTED, Calls, Problem, Scenario, iterate, process_state_guard

KINDS = sorted(CALLBACK_FAULTS)


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401


# ------------------------------------------------------------------------------------------------------
# tasks: a task is a generator function `steps(calls)`; it yields between its steps and returns its result
# ------------------------------------------------------------------------------------------------------
class Inputs:
    """the caller's arrays and dictionaries, and what they contained"""

    def __init__(self):
        self.given = []

    def keep(self, name, value):
        self.given.append((name, value, _frozen(value)))
        return value

    def check(self):
        for name, value, before in self.given:
            if not _equal(_frozen(value), before):
                raise Violation("input-modified", name)


def _frozen(v):
    if isinstance(v, dict):
        return {k: _frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_frozen(x) for x in v]
    return np.array(v) if isinstance(v, np.ndarray) else v


def _equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a is b or a == b


class Noisy:
    """a performance metric that keeps state of its own"""

    def compute(self, X=None, Y=None):
        return float(np.sum(Y))


class OptimizerTask:
    def __init__(self, sim, heavy):
        kinds = [("HVN", 3), ("DpN", 5), ("Lara", 1)] + ([("MMDNewton", 1)] if heavy else [])
        self.s = s = Scenario(sim, kinds, max_iters=(1, 4), n_max=4, n_var_max=3)
        self.warn = sim.flip(0.3, "callbacks-warn")
        if sim.flip(0.25, "ill-conditioned") and s.kind in ("HVN", "DpN"):
            s.p.A[:] = s.p.A * np.outer(np.r_[np.full(s.n_var - 1, 1e-9), 1.0], np.r_[np.full(s.n_var - 1, 1e-9), 1.0])
            s.p.q = 0.0
            s.ref = np.array([s.p.f(s.p.xl + (s.p.xu - s.p.xl) * w) for w in np.linspace(0.1, 0.9, len(s.ref))]) - 0.05
        self.with_metrics = sim.flip(0.3, "metrics")
        self.default_x0 = False
        i = self.inputs = Inputs()
        self.x0, self.xl, self.xu = i.keep("X0", s.X0.copy()), i.keep("xl", s.p.xl.copy()), i.keep("xu", s.p.xu.copy())
        if s.kind == "HVN":
            self.ref = i.keep("ref", s.ref_point.copy())
        elif s.kind == "Lara":
            self.ref = None
        else:
            base = s.reference_set()
            comps = {k: v.copy() for k, v in base._ref.items()}
            self.as_dict = s.components > 1 or sim.flip(0.4, "ref-as-dict")
            self.ref = i.keep("reference set", comps if self.as_dict else comps[0])
            self.eta = None
            if sim.flip(0.3, "eta"):
                d = np.full(s.n_obj, -0.5)
                self.eta = i.keep("eta", {k: d.copy() for k in comps} if self.as_dict and sim.flip(0.7, "eta-dict") else d)
        self.metrics = i.keep("metrics", {"a": Noisy()}) if self.with_metrics else None
        self.describe = dict(s.describe(), task="optimizer", warn=self.warn)

    def build(self, calls):
        from hvd.reference_set import ReferenceSet

        ref = self.ref
        if self.s.kind in ("DpN", "MMDNewton"):
            ref = ReferenceSet(ref=ref, eta=self.eta) if self.eta is not None else ReferenceSet(ref=ref)
        kw = {} if ref is None else dict(ref=ref)
        return self.s.build(calls, x0=self.x0, xl=self.xl, xu=self.xu, metrics=self.metrics, **kw)

    def steps(self, calls):
        if self.warn:
            calls.observers.append(lambda site, x: warnings.warn(f"from {site}", RuntimeWarning))
        opt = yield from retry(lambda: self.build(calls))
        while not opt.terminate():
            yield from retry(lambda: iterate(opt))
            opt.log()
        out = [np.array(opt.state.X), np.array(opt.state.Y), opt.iter_count, np.array(opt.history_R_norm)]
        out += [np.array(a) for a in opt.history_X] + [np.array(opt.step)]
        if self.s.kind != "Lara":
            out.append(np.array(opt.history_indicator_value, dtype=float))
        if self.s.kind in ("DpN", "MMDNewton"):
            out.append(np.array(opt.ref.reference_set))
        out.append(np.array(opt.history_metrics["a"]) if self.metrics else 0)
        return out


class IndicatorTask:
    def __init__(self, sim, heavy):
        self.kind = sim.weighted([("HV", 3), ("GD", 2), ("IGD", 2), ("IGD-matching", 2)] + ([("MMD", 1), ("MMDMatching", 1)] if heavy else []), "indicator")
        self.n_obj = 2 + sim.choose(3 if self.kind == "HV" else 2, "n_obj")
        self.n_var = 2 + sim.choose(2, "n_var")
        self.N = 1 + sim.choose(5, "N")
        self.p = Problem(sim, self.n_var, self.n_obj)
        self.n_steps = 1 + sim.choose(4, "n-steps")
        rng = sim.rng("points")
        self.inputs = Inputs()
        self.Xs = [self.inputs.keep("X", self.p.xl + (self.p.xu - self.p.xl) * rng.rand(self.N, self.n_var)) for _ in range(self.n_steps)]
        F = np.array([self.p.f(x) for X in self.Xs for x in X])
        self.ref = self.inputs.keep("ref", F.max(axis=0) + 1.0 if self.kind == "HV" else F.min(axis=0) + rng.rand(self.N + 4, self.n_obj))
        self.style = sim.choose(2, "given-Y")
        self.describe = dict(task="indicator", kind=self.kind, n_obj=self.n_obj, N=self.N)

    def build(self, calls):
        from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
        from hvd.hypervolume_derivatives import HypervolumeDerivatives
        from hvd.mmd import MMD, MMDMatching

        cb = self.p.callbacks(calls)
        f, j, h = cb["func"], cb["jac"], cb["hess"]
        if self.kind == "HV":
            return HypervolumeDerivatives(self.n_var, self.n_obj, self.ref, f, j, h)
        if self.kind == "GD":
            return GenerationalDistance(self.ref, f, j, h)
        if self.kind.startswith("IGD"):
            return InvertedGenerationalDistance(self.ref, f, j, h, matching=self.kind != "IGD")
        return {"MMD": MMD, "MMDMatching": MMDMatching}[self.kind](self.n_var, self.n_obj, self.ref, f, j, h)

    def steps(self, calls):
        ind = self.build(calls)
        out = []
        for X in self.Xs:
            Y = np.array([self.p.f(x) for x in X]) if self.style else None
            out.append(np.array((yield from retry(lambda: ind.compute(X=X, Y=Y)))))
            g, H = yield from retry(lambda: ind.compute_derivatives(X=X, Y=Y))
            out += [np.array(g), np.array(H)]
        return out


def retry(action):
    """one step of a task; a failed step is repeated"""
    while True:
        yield
        try:
            return action()
        except INJECTED:
            pass


def finish(steps):
    try:
        while True:
            next(steps)
    except StopIteration as e:
        return e.value


# ------------------------------------------------------------------------------------------------------
def run(sim):
    mode = sim.weighted([("threads", 5), ("interleaved", 2), ("nested", 2), ("hashseed", 0.012)], "mode")
    sim.cover(mode)
    if mode == "hashseed":
        return other_process(sim)
    n = 2 + (sim.choose(3, "n-tasks") == 2)
    heavy = sim.flip(0.08, "heavy")
    tasks = []
    for i in range(n):
        if tasks and sim.flip(0.25, "twin"):  # the same inputs, shared
            tasks.append(tasks[-1])
        else:
            tasks.append((OptimizerTask if sim.flip(0.75, "optimizer") else IndicatorTask)(sim, heavy))
    sim.sample.update(mode=mode, tasks=[t.describe for t in tasks])
    sim.cover(*[tuple(map(str, t.describe.values())) for t in tasks])
    seed = sim.choose(1000, "random-state")
    with process_state_guard():
        alone, states = zip(*[from_seed(sim, t, seed) for t in tasks])
    for t in tasks:
        t.inputs.check()
    if sim.flip(0.3, "other-order"):  # what was computed before does not matter either
        for i in reversed(range(n)):
            result, state = from_seed(sim, tasks[i], 2000 + seed)
            if not _equal(alone[i], result):
                raise Violation("influenced-by-history", str(tasks[i].describe))
            # numbers may have been drawn from the process-wide generators, but nothing else happened to them
            if any(a == b for a, b in zip(state, states[i])):
                raise Violation("random-state-replaced", f"{tasks[i].describe}: other users of the generator get the same numbers again")
    np.random.seed(1000 + sim.choose(1000, "random-state"))
    calls = [Calls(sim) for _ in tasks]
    failing = [sim.flip(0.2, "failing") for _ in tasks]
    for c, bad in zip(calls, failing):
        if bad:
            for _ in range(1 + sim.choose(2, "n-faults")):
                c.plan_total[1 + sim.choose(2 ** (1 + sim.choose(7, "magnitude")), "at")] = sim.pick(KINDS, "kind")

    def noise():
        if sim.choose(4, "noise") == 3:
            np.random.rand(1 + sim.choose(3, "noise-n"))

    with process_state_guard():
        if mode == "threads":
            eager = 1 + sim.choose(8, "eagerness")
            results = Scheduler(sim, eager, noise).run([lambda t=t, c=c: finish(t.steps(c)) for t, c in zip(tasks, calls)])
        elif mode == "interleaved":
            results = interleave(sim, tasks, calls, noise)
        else:
            results = nest(sim, tasks, calls)
    for t, want, (got, error) in zip(tasks, alone, results):
        if error is not None:
            if isinstance(error, Violation):
                raise error
            raise Violation(f"influenced-{type(error).__name__}", f"{mode}: {t.describe}: {error!r}") from error
        if not _equal(want, got):
            raise Violation("influenced", f"{mode}: {t.describe} differs from what it computes alone: {difference(want, got)}")
        t.inputs.check()
    sim.log("end", *[r[0][0] for r in results])


def from_seed(sim, task, seed):
    """the result of a task that starts from this process-wide random state, and the state it leaves behind"""
    np.random.seed(seed)
    random.seed(seed)
    result = finish(task.steps(Calls(sim, latency=False)))
    return result, (str(np.random.get_state()), random.getstate())


def difference(want, got):
    for i, (a, b) in enumerate(zip(want, got)):
        if not _equal(a, b):
            return f"item {i}: {str(a)[:80]} / {str(b)[:80]}"
    return "length"


def interleave(sim, tasks, calls, noise):
    steps = [t.steps(c) for t, c in zip(tasks, calls)]
    results = [None] * len(tasks)
    live = list(range(len(tasks)))
    while live:
        i = sim.pick(live, "next")
        sim.cover(i)
        noise()
        try:
            next(steps[i])
        except StopIteration as e:
            results[i] = (e.value, None)
            live.remove(i)
        except BaseException as e:  # noqa: BLE001
            results[i] = (None, e)
            live.remove(i)
    return results


def nest(sim, tasks, calls):
    """the first task's user functions drive the other tasks"""
    inner = [t.steps(c) for t, c in zip(tasks[1:], calls[1:])]
    results = [None] * len(tasks)
    at = {sim.choose(2 ** (1 + sim.choose(8, "magnitude")), "at") for _ in range(1 + sim.choose(6, "n"))}
    depth = [0]

    def step(i):
        if results[i + 1] is None:
            try:
                next(inner[i])
            except StopIteration as e:
                results[i + 1] = (e.value, None)
            except BaseException as e:  # noqa: BLE001
                results[i + 1] = (None, e)

    def observe(site, x):
        if depth[0] == 0 and calls[0].total in at:
            depth[0] = 1
            sim.log("nested in", site)
            sim.cover("nested", site)
            sim.probe("nested-steps")
            i = sim.choose(len(inner), "inner")
            for _ in range(1 + sim.choose(4, "steps")):
                step(i)
            depth[0] = 0

    calls[0].observers.append(observe)
    try:
        results[0] = (finish(tasks[0].steps(calls[0])), None)
    except BaseException as e:  # noqa: BLE001
        results[0] = (None, e)
    for i in range(len(inner)):
        while results[i + 1] is None:
            step(i)
    return results


# ------------------------------------------------------------------------------------------------------
def other_process(sim):
    """the same tasks under other hash seeds and in another process"""
    seed = sim.choose(1 << 20, "tasks")
    digests = []
    for _ in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(1 + sim.choose(4000, "hash-seed")))
        r = subprocess.run(
            [sys.executable, "-c", f"from dst.props import c05; c05.setup(); c05.child({seed})"],
            env=env, capture_output=True, text=True,
        )
        if r.returncode:
            raise RuntimeError(r.stderr[-2000:])
        digests.append(r.stdout.strip().splitlines()[-1])
    sim.probe("processes", 2)
    if digests[0] != digests[1]:
        raise Violation("depends-on-hash-seed", str(digests))


def child(seed):
    out = []
    for i in range(6):
        sim = Sim(seed * 10 + i)
        np.random.seed(sim.choose(1000))
        task = (OptimizerTask if i < 4 else IndicatorTask)(sim, False)
        np.random.seed(os.getpid() % 1000)
        for a in finish(task.steps(Calls(sim, latency=False))):
            sim.absorb(a)
        out.append(sim.digest)
    print(json.dumps(out))
