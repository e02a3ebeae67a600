"""C10: indicator values and derivatives depend on the points only."""

from copy import deepcopy

import numpy as np
from scipy.optimize import linear_sum_assignment

from .. import models, world
from ..core import Skip, Violation
from ..world import INJECTED, Calls, Problem, kernels

KINDS = ["error", "oserror", "memory", "interrupt", "exit"]
KERNELS = ["cdist", "assignment", "kmedoids"]


def setup():
    world.import_hvd()
    import hvd.delta_p  # noqa: F401
    import hvd.mmd  # noqa: F401
    import hvd.reference_set  # noqa: F401


class Indicator:
    """one indicator under test and what its value and derivatives must be"""

    def __init__(self, sim, kind, problem, calls, ref, share):
        from hvd.reference_set import ReferenceSet

        self.kind, self.p, self.share = kind, problem, share
        cb = problem.callbacks(calls, "closure")
        self.cb = dict(func=cb["func"], jac=cb["jac"], hess=cb["hess"])
        self.maximise = kind == "HV" and sim.flip(0.25, "maximise")
        self.power = sim.pick([2, 2, 2, 3, 4], "p") if kind == "GD" else 2
        self.kernel = sim.pick(["rbf", "rational_quadratic", "laplace"], "kernel") if "MMD" in kind else None
        self.theta = sim.pick([1.0, 0.3, 2.5], "theta") if "MMD" in kind else None
        self.beta = sim.pick([0.5, 0.25, 1.0], "beta") if kind == "MMDMatching" else None
        self.matching = kind in ("IGD-matching", "MMDMatching")
        if kind != "HV":
            # some callers hand over the array
            ref = ref if isinstance(ref, ReferenceSet) or sim.flip(0.5, "array") else ReferenceSet(ref)
        self.real = self.make(self.cb, ref)

    def describe(self):
        return (self.kind, self.maximise, self.power, self.kernel, self.theta, self.beta, self.share)

    def make(self, cb, ref):
        from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
        from hvd.hypervolume_derivatives import HypervolumeDerivatives
        from hvd.mmd import MMD, MMDMatching, laplace, rational_quadratic, rbf

        p = self.p
        if self.kind == "HV":
            return HypervolumeDerivatives(p.n_var, p.n_obj, ref, cb["func"], cb["jac"], cb["hess"], minimization=not self.maximise)
        if self.kind == "GD":
            return GenerationalDistance(ref, cb["func"], cb["jac"], cb["hess"], p=self.power)
        if self.kind.startswith("IGD"):
            return InvertedGenerationalDistance(ref, cb["func"], cb["jac"], cb["hess"], matching=self.matching)
        args = (p.n_var, p.n_obj, ref, cb["func"], cb["jac"], cb["hess"])
        kernel = dict(rbf=rbf, rational_quadratic=rational_quadratic, laplace=laplace)[self.kernel]
        if self.kind == "MMD":
            return MMD(*args, kernel=kernel, theta=self.theta)
        return MMDMatching(*args, kernel=kernel, theta=self.theta, beta=self.beta)

    @property
    def ref(self):
        return self.real.ref

    def points(self):
        """the reference points in force"""
        if self.kind == "HV":
            return self.point
        return np.array(self.real.ref.reference_set)

    def value(self, X):
        Y, R = self.p.truth(X)["Y"], self.points()
        if self.kind == "HV":
            s = -1 if self.maximise else 1
            return models.hv(s * Y, s * R)
        if self.kind == "GD":
            return models.gd(Y, R, self.power)
        if self.kind == "IGD":
            return models.igd(Y, R)
        if self.kind == "IGD-matching":
            return np.mean(np.sum((Y - R) ** 2, axis=1))
        return models.mmd(Y, R, self.theta, self.kernel, self.beta)

    def derivatives(self, X):
        """gradient (N, d) and Hessian; None where the indicator is not smooth"""
        t = self.p.truth(X)
        H = np.array([self.p.hess(x) for x in X])
        Y, J, R = t["Y"], t["J"], self.points()
        N, d = X.shape
        m = Y.shape[1]
        if self.kind == "HV":
            s = -1 if self.maximise else 1
            Y, J, H, R = s * Y, s * J, s * H, s * R
            if not np.all(Y < R):
                return None
            out = models.hv_derivatives(Y, R)
            if out is None:
                return None
            g, h = models.chain(J, H, out[0], out[1].reshape(N, m, N, m))
            return g, h.reshape(N * d, N * d)
        if self.kind == "GD":
            D = np.sort(np.linalg.norm(Y[:, None] - R[None], axis=2), axis=1)
            if np.min(D[:, 0]) < 1e-3 or (D.shape[1] > 1 and np.min(D[:, 1] - D[:, 0]) < 1e-9):
                return None
            i = np.argmin(np.linalg.norm(Y[:, None] - R[None], axis=2), axis=1)
            diff = Y - R[i]
            q = self.power
            r = np.linalg.norm(diff, axis=1)
            v = np.einsum("im,imd->id", diff, J)
            inner = np.einsum("imd,ime->ide", J, J) + np.einsum("im,imde->ide", diff, H)
            g = q / N * r[:, None] ** (q - 2) * v
            h = q / N * (r[:, None, None] ** (q - 2) * inner + (q - 2) * r[:, None, None] ** (q - 4) * np.einsum("id,ie->ide", v, v))
            return g, h
        if self.kind == "IGD":
            D = np.sort(np.linalg.norm(R[:, None] - Y[None], axis=2), axis=1)
            if N > 1 and np.min(D[:, 1] - D[:, 0]) < 1e-9:
                return None
            return models.igd_derivatives(Y, R, J, H)
        if self.kind == "IGD-matching":
            return models.matched_derivatives(Y, R, J, H)
        if self.kernel == "laplace":
            pairs = [Y[i] - Y[j] for i in range(N) for j in range(i)] + [y - r for y in Y for r in R]
            if min(np.min(np.abs(p)) for p in pairs) < 1e-9:
                return None
        G, B = models.mmd_derivatives(Y, R, self.theta, self.kernel, self.beta)
        g, h = models.chain(J, H, G, B)
        return g, h.reshape(N * d, N * d)


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


def run(sim):
    from hvd.reference_set import ReferenceSet

    n_obj = 2 + sim.choose(2, "n_obj")
    n_var = sim.integer(1, 4, "n_var")
    p = Problem(sim, n_var, n_obj)
    rng = sim.rng("data")
    calls, calm = Calls(sim), Calls(sim, latency=False)
    for _ in range(sim.integer(0, 3, "n-faults")):
        site = sim.pick(["func", "jac", "hess"] + KERNELS, "site")
        calls.plan[(site, sim.choose(30, "at"))] = sim.pick(KINDS, "kind")

    N_max = sim.integer(1, 5, "N")
    grid = sim.flip(0.15, "grid")  # coordinates that coincide

    def population(n):
        X = p.xl + (p.xu - p.xl) * rng.uniform(0, 1, (n, n_var))
        if grid:
            X = np.round(X * 4) / 4
        if n > 1 and sim.flip(0.1, "duplicate"):
            X[-1] = X[0]
        return X

    Xs = [population(sim.integer(1, N_max, "n")) for _ in range(sim.integer(1, 3, "populations"))]
    corner = np.array([p.f(x) for X in Xs for x in X])

    def reference(n_min):
        W = rng.dirichlet(np.ones(n_obj), n_min + sim.choose(6, "M"))
        return np.array([p.f(w @ p.c) for w in W]) - rng.uniform(0.0, 0.3, n_obj) + rng.randn(len(W), n_obj) * 0.01

    def reference_point(maximise):
        beyond = sim.flip(0.15, "not-dominated")
        s = -1 if maximise else 1
        worst, best = (s * corner).max(axis=0), (s * corner).min(axis=0)
        return s * ((worst + best) / 2 if beyond else worst + rng.uniform(0.05, 2.0, n_obj))

    shared = ReferenceSet(reference(max(N_max, n_obj)))
    pool = []
    kinds = [("HV", 8), ("GD", 4), ("IGD", 4), ("IGD-matching", 4), ("MMD", 1), ("MMDMatching", 1.6)]
    for _ in range(sim.integer(1, 3, "n-indicators")):
        kind = sim.weighted(kinds, "indicator")
        share = kind != "HV" and sim.flip(0.4, "share")
        ref = reference_point(False) if kind == "HV" else (shared if share else reference(max(N_max, n_obj)))
        ind = Indicator(sim, kind, p, calls, ref, share)
        if kind == "HV":
            ind.point = ref = reference_point(ind.maximise)
            ind.real.ref = ref if sim.flip(0.7, "array") else ref.tolist()
        pool.append(ind)
        sim.cover(ind.describe())
    sim.sample.update(n_var=n_var, n_obj=n_obj, indicators=[i.kind for i in pool], sizes=[len(X) for X in Xs])
    sim.cover(n_var, n_obj, grid, tuple(sorted(calls.plan.items())))

    handed = []  # (what, array, copy): results are the caller's

    def keep(what, *arrays):
        for a in arrays:
            if isinstance(a, np.ndarray):
                handed.append((what, a, a.copy()))

    with kernels(calls, KERNELS):
        for step in range(sim.integer(1, 10, "n-steps")):
            ind = sim.weighted([(i, 3 if "MMD" in i.kind else 1) for i in pool], "which")
            op = sim.weighted([("value", 4), ("gradient", 3), ("hessian", 4), ("reference", 1), ("beta", 0.5), ("autodiff", 0.3), ("shift", 0.5)], "op")
            where = f"step {step}: {ind.kind} {op}"
            sim.cover(step, ind.kind, op)
            if op == "reference":
                if ind.kind == "HV":
                    ind.point = reference_point(ind.maximise)
                    ind.real.ref = ind.point.copy()
                else:
                    ind.real.ref = ReferenceSet(reference(max(N_max, n_obj)))
                    ind.share = False
                sim.probe("references-changed")
                continue
            if op == "beta":
                if ind.beta is not None:
                    ind.beta = ind.real.beta = ind.beta * 0.8
                continue
            if op == "shift":
                if ind.kind != "HV" and ind.real.ref is not shared:
                    ind.real.ref.shift(0.05)
                continue
            if op == "autodiff" and (ind.kind != "HV" or grid):
                continue
            X = sim.pick(Xs, "points").copy()
            t = p.truth(X)
            given = sim.weighted([("nothing", 4), ("values", 2), ("values-and-jacobians", 2)], "given")
            kw = {}
            if given != "nothing":
                kw["Y"] = t["Y"].copy()
            if given == "values-and-jacobians" and op in ("gradient", "hessian"):
                kw[{"HV": "YdX", "GD": "Jacobian", "IGD": "Jacobian", "IGD-matching": "Jacobian"}.get(ind.kind, "jacobian")] = t["J"].copy()
            inputs = [X] + list(kw.values())
            before = [a.copy() for a in inputs]

            def call(real):
                if op == "value":
                    if "Y" in kw and sim_without_x:
                        return real.compute(Y=kw["Y"])
                    return real.compute(X, **kw)
                if op == "autodiff":
                    out = real.compute_automatic_differentiation(X)
                    return np.asarray(out["HVdX"]).reshape(len(X), -1), np.asarray(out["HVdX2"])
                return real.compute_derivatives(X, compute_hessian=op == "hessian", **kw)

            sim_without_x = sim.flip(0.5, "without-x")
            ref_before = None if ind.kind == "HV" else deepcopy(ind.real.ref)
            fired = len(calls.fired)
            try:
                out = call(ind.real)
            except INJECTED as e:
                if len(calls.fired) == fired or e is not calls.last:
                    raise Violation("failure-changed", f"{where}: {e!r}") from e
                sim.probe("failed-calls")
                continue
            if len(calls.fired) > fired:
                raise Violation("failure-swallowed", f"{where}: {calls.fired[-1]}")
            for a, b in zip(inputs, before):
                if not np.array_equal(a, b):
                    raise Violation("input-modified", where)
            # -- what it must be, from the definition
            if ind.matching:
                D = np.linalg.norm(t["Y"][:, None] - ind.points()[None], axis=2)
                i, j = linear_sum_assignment(D)
                if D.shape[0] != D.shape[1] or np.trace(D) > D[i, j].sum() * (1 + 1e-9) + 1e-9:
                    raise Violation("not-matched", where)
            if op == "value":
                want = ind.value(X)
                if not np.ndim(out) == 0 or not close(out, want, 1e-9):
                    raise Violation("value", f"{where} {ind.describe()}: {out!r} instead of {want!r}")
                sim.probe("values-checked")
            else:
                g, h = out if op != "gradient" else (out, None)
                keep(where, g, h)
                want = ind.derivatives(X)
                if want is not None:
                    tol = 1e-6 if ind.kind == "HV" else 1e-8
                    if not close(g, want[0], tol):
                        raise Violation("gradient", f"{where} {ind.describe()} {given}: {np.asarray(g).tolist()} instead of {want[0].tolist()}")
                    if h is not None and not close(h, want[1], 1e-5 if ind.kind == "HV" else 1e-8):
                        raise Violation("hessian", f"{where} {ind.describe()} {given}: {np.asarray(h).tolist()} instead of {want[1].tolist()}")
                    sim.probe("derivatives-checked")
                elif ind.kind == "HV":
                    sim.probe("degenerate")
            # -- an indicator without a history
            if "MMD" not in ind.kind or sim.flip(0.15, "fresh-mmd"):
                calls_were, plan = dict(calls.count), calls.plan
                calls.plan = {}
                try:
                    cb = p.callbacks(calm, "closure")
                    fresh = ind.make(cb, ind.point.copy() if ind.kind == "HV" else ref_before)
                    again = call(fresh)
                finally:
                    calls.plan = plan
                    calls.count = calls_were
                for a, b in zip(out if isinstance(out, tuple) else (out,), again if isinstance(again, tuple) else (again,)):
                    if not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True):
                        raise Violation("history-dependent", f"{where}: {np.asarray(a).tolist()} instead of {np.asarray(b).tolist()}")
                if ind.kind != "HV" and not np.array_equal(fresh.ref.reference_set, ind.real.ref.reference_set):
                    raise Violation("history-dependent", f"{where}: reference set")
                sim.probe("fresh-checked")
            sim.absorb(np.asarray(out[0] if isinstance(out, tuple) else out, dtype=float))
        for what, a, b in handed:
            if not np.array_equal(a, b, equal_nan=True):
                raise Violation("result-changed", what)
    sim.log("end")
