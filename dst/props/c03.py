"""C03: one immutable history record per iteration, exactly the requested iterations."""

import numpy as np

from .. import world
from ..core import Violation
from ..world import CALLBACK_FAULTS, INJECTED, Calls, Scenario, iterate, kernels

KINDS = sorted(CALLBACK_FAULTS)
KERNELS = ["solve", "spsolve", "cholesky", "lstsq", "assignment", "kmedoids"]


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401


class Metric:
    def __init__(self, name, recorder):
        self.name, self.recorder = name, recorder

    def compute(self, X=None, Y=None):
        return self.recorder.metric(self.name, Y)


class Recorder:
    """what the histories must contain, collected when the metrics are evaluated and after every iteration"""

    def __init__(self, sim, calls, names):
        self.sim, self.calls, self.names = sim, calls, names
        self.opt = None
        self.values = {n: [] for n in names}  # values that were returned
        self.called = {n: [] for n in names}  # iterations in which the metric was called
        self.snapshots = []  # (X, Y, indicator, R norm) per iteration

    def metric(self, name, Y):
        opt = self.opt
        i = len(opt.history_Y)
        if i in self.called[name]:
            raise Violation("metric-evaluated-twice", f"{name} in iteration {i}")
        self.called[name].append(i)
        if Y is None or not np.array_equal(np.asarray(Y), np.asarray(opt.state.Y), equal_nan=True):
            raise Violation("metric-wrong-argument", f"{name}: Y is not the current set of objective points")
        self.calls.callback(f"metric-{name}", None)
        value = float(np.sum(Y)) + len(name)
        self.values[name].append(value)
        return value

    def check(self, fresh=True):
        """`fresh`: nothing happened since the last record was made"""
        opt = self.opt
        n = opt.iter_count
        lengths = {k: len(getattr(opt, k)) for k in ("history_X", "history_Y", "history_R_norm")}
        if type(opt).__name__ != "Lara":
            lengths["history_indicator_value"] = len(opt.history_indicator_value)
        for k, v in lengths.items():
            if v != n:
                raise Violation(f"history-length-{k}", f"{v} records after {n} iterations of {type(opt).__name__}")
        while len(self.snapshots) < n:
            self.snapshots.append(None)
        if n and not fresh and self.snapshots[n - 1] is None:
            value = None if type(opt).__name__ == "Lara" else float(opt.history_indicator_value[-1])
            self.snapshots[n - 1] = (np.array(opt.history_X[-1]), np.array(opt.history_Y[-1]), value, opt.history_R_norm[-1])
        elif n and self.snapshots[n - 1] is None:
            X, Y = np.array(opt.state.primal), np.array(opt.state.Y)
            if not np.array_equal(X, opt.history_X[-1], equal_nan=True):
                raise Violation("history-X", "the last record is not the iterate")
            if not np.array_equal(Y, opt.history_Y[-1], equal_nan=True):
                raise Violation("history-Y", "the last record is not the iterate")
            norm = np.median(np.linalg.norm(opt.R if hasattr(opt, "R") else opt.step, axis=1))
            if not np.isclose(norm, opt.history_R_norm[-1], rtol=1e-12, atol=0, equal_nan=True):
                raise Violation("history-R-norm", f"{opt.history_R_norm[-1]} instead of {norm}")
            value = None
            if type(opt).__name__ != "Lara":
                value = opt.curr_indicator_value
                if not np.isclose(float(value), float(opt.history_indicator_value[-1]), rtol=1e-12, equal_nan=True):
                    raise Violation("history-indicator", f"{opt.history_indicator_value[-1]} instead of {value}")
            self.snapshots[n - 1] = (X, Y, None if value is None else float(value), float(norm))
        for i, snap in enumerate(self.snapshots):
            if snap is None:
                continue
            if not np.array_equal(snap[0], opt.history_X[i], equal_nan=True):
                raise Violation("history-X-changed", f"record {i} changed later")
            if not np.array_equal(snap[1], opt.history_Y[i], equal_nan=True):
                raise Violation("history-Y-changed", f"record {i} changed later")
            if not np.isclose(opt.history_R_norm[i], snap[3], equal_nan=True):
                raise Violation("history-R-norm-changed", f"record {i} changed later")
            if snap[2] is not None and not np.isclose(opt.history_indicator_value[i], snap[2], equal_nan=True):
                raise Violation("history-indicator-changed", f"record {i} changed later")
        for name in self.names:
            got = list(opt.history_metrics[name]) if name in opt.history_metrics else []
            if got != self.values[name]:
                raise Violation("history-metrics", f"{name}: {got} instead of {self.values[name]}")


def run(sim):
    s = Scenario(sim, [("HVN", 3), ("DpN", 4), ("Lara", 2), ("MMDNewton", 1)], max_iters=(0, 6), outside=sim.flip(0.3, "outside"), sampled=True)
    if s.N <= 2 and sim.flip(0.1, "default-iterations"):
        s.default_iters, s.max_iters = True, 10 * s.N
    sim.sample.update(s.describe())
    calls = Calls(sim)
    names = ["a", "b"][: sim.choose(3, "n-metrics")]
    rec = Recorder(sim, calls, names)
    given = {n: Metric(n, rec) for n in names}
    with kernels(calls, KERNELS):
        opt = s.build(calls, metrics=given)
        rec.opt = opt
        rec.check()
        metric_faults = bool(names) and sim.flip(0.25, "metric-faults")
        for _ in range(sim.integer(0, 3, "n-faults")):
            if metric_faults and sim.flip(0.5, "at-metric"):
                calls.plan[(f"metric-{sim.pick(names, 'metric')}", sim.choose(6, "at"))] = sim.pick(KINDS, "kind")
            else:
                at = calls.total + 1 + sim.choose(2 ** (1 + sim.choose(9, "magnitude")), "at")
                calls.plan_total[at] = sim.pick(KINDS, "kind")
        sim.cover(s.key(), tuple(sorted(calls.plan)), tuple(sorted(calls.plan_total)))
        manual = sim.choose(s.max_iters + 1, "manual-iterations") if sim.flip(0.5, "mixed") else 0
        done = 0
        while done < manual:
            try:
                iterate(opt)
            except INJECTED:
                sim.probe("failed-iteration")
                continue
            done += 1
            try:
                opt.log()
            except INJECTED:
                sim.probe("failed-log")
            rec.check()
        result = None
        for _ in range(12):
            try:
                result = opt.run()
            except INJECTED:
                sim.probe("failed-run")
                rec.check(fresh=False)
                continue
            break
        else:
            raise Violation("no-progress", "run does not end")
        rec.check()
        if opt.iter_count != s.max_iters:
            raise Violation("iteration-count", f"{opt.iter_count} iterations instead of {s.max_iters}")
        if not any(site.startswith("metric") for site, _, _ in calls.fired):
            for n in names:
                if len(rec.values[n]) != s.max_iters:
                    raise Violation("metric-count", f"{len(rec.values[n])} values after {s.max_iters} iterations")
        primal, Y, stop = result
        if not (np.array_equal(primal, opt.state.primal, equal_nan=True) and np.array_equal(Y, opt.state.Y, equal_nan=True)):
            raise Violation("result-is-not-the-iterate", s.kind)
        if s.max_iters and not (
            np.array_equal(primal, opt.history_X[-1], equal_nan=True) and np.array_equal(Y, opt.history_Y[-1], equal_nan=True)
        ):
            raise Violation("result-is-not-the-last-record", s.kind)
        if stop.get("iter_count") != s.max_iters:
            raise Violation("stop-reason", str(stop))
        # a run that has stopped does nothing
        calls.plan.clear(), calls.plan_total.clear()
        total, keep = calls.total, (np.array(primal), np.array(Y))
        again = opt.run()
        if calls.total != total:
            raise Violation("stopped-run-continues", f"{calls.total - total} calls of user functions and kernels")
        if not (np.array_equal(again[0], keep[0], equal_nan=True) and np.array_equal(again[1], keep[1], equal_nan=True)):
            raise Violation("stopped-run-changes-result", s.kind)
        if again[2].get("iter_count") != s.max_iters:
            raise Violation("stop-reason", str(again[2]))
        rec.check()
        # what the caller does with the result does not reach the history
        if s.max_iters and sim.flip(0.5, "caller-modifies-result"):
            first, second = np.array(opt.history_X[-1]), np.array(opt.history_Y[-1])
            for a in (primal, Y):
                if np.asarray(a).flags.writeable:
                    a += 1.0
            if not (np.array_equal(first, opt.history_X[-1], equal_nan=True) and np.array_equal(second, opt.history_Y[-1], equal_nan=True)):
                raise Violation("history-shares-memory-with-result", s.kind)
        if s.max_iters > 1:
            memory = [id(a) for a in opt.history_X] + [id(a) for a in opt.history_Y]
            if len(set(memory)) != len(memory):
                raise Violation("history-records-shared", s.kind)
    sim.log("end", opt.state.X)
