"""C19: critical points are certified, others are not, whatever becomes of the linear programs.

Gradients are constructed with a known minimal stationarity residual, so no solver is needed to know the answer."""

import numpy as np
from scipy.optimize import OptimizeResult

from .. import world
from ..core import SimError, SimExit, SimInterrupt, SimMemoryError, Violation
from ..world import Calls, kernels


def setup():
    world.import_hvd()
    import hvd.base  # noqa: F401


class Point:
    """values and derivatives at one point, and whether it is critical"""

    def __init__(self, sim, rng, dims, tols):
        n, m, p, q = dims
        s_tol, f_tol, a_tol = tols
        self.x = rng.randn(n)
        scale = 10.0 ** sim.integer(-1, 2, "scale")
        self.h = np.zeros(p)
        self.feasible = True
        for i in range(p):
            f = sim.weighted([(0.0, 4), (0.5, 2), (0.98, 1), (1.02, 1), (50.0, 1), (np.nan, 0.3), (np.inf, 0.3)], "h")
            self.h[i] = rng.choice([-1, 1]) * f * f_tol if f else 0.0
            self.feasible &= bool(f < 1)
        self.g = np.zeros(q)
        active = np.zeros(q, bool)
        for i in range(q):
            where = sim.weighted([("inside", 4), ("active", 4), ("near", 2), ("just-inside", 2), ("slack", 1), ("out", 1), ("nan", 0.3), ("-inf", 0.3)], "g")
            self.g[i] = {"inside": -1.0, "active": 0.0, "near": -0.98 * a_tol, "just-inside": -1.02 * a_tol - 1e-12, "slack": 0.98 * f_tol,
                         "out": 1.02 * f_tol + 1e-12, "nan": np.nan, "-inf": -np.inf}[where]
            active[i] = where in ("active", "near", "slack") or self.g[i] >= -a_tol
            self.feasible &= where not in ("out", "nan", "-inf")
        lam = rng.dirichlet(np.ones(m))
        if m > 1 and sim.flip(0.3, "vertex"):
            lam[:] = 0
            lam[rng.randint(m)] = 1.0
        mu = np.where(rng.rand(q) < 0.7, rng.uniform(0.2, 2, q), 0.0)
        nu = rng.choice([-1, 1], p) * rng.uniform(0.2, 2, p)
        self.J, self.dh, self.dg = rng.randn(m, n), rng.randn(p, n), rng.randn(q, n)
        self.kind = sim.pick(["critical", "residual", "separated", "separated"], "kind")
        if n == 1 and self.kind == "critical":
            self.kind = "residual"
        k = int(np.argmax(lam))
        if self.kind == "separated":  # a direction that improves all objectives and respects the active constraints
            d = rng.choice([-1, 1], n) * rng.uniform(0.2, 1, n)
            d /= np.abs(d).sum()
            self.residual = s_tol * sim.pick([1.05, 3.0, 100.0], "margin")
            unit = d / (d @ d)
            self.J += np.outer(self.residual * rng.uniform(1, 3, m) - self.J @ d, unit)
            self.dh -= np.outer(self.dh @ d, unit)
            self.dg[active] += np.outer(np.abs(rng.randn(active.sum())) + 0.1 - self.dg[active] @ d, unit)
            if sim.flip(0.5, "tempting") and q:  # the wrong sign, or an inactive constraint, would make it critical
                self.dg[~active] = -self.J[0]
                if active.any():
                    self.dg[np.flatnonzero(active)[0]] = self.J[k]
            self.critical = False
        else:
            c = 0.0 if self.kind == "critical" else s_tol * sim.pick([0.5, 0.95, 1.05, 2.0, 100.0], "factor")
            if not self.feasible:
                mu = mu * 0
            mu = np.where(active, mu, 0.0)
            rest = lam @ self.J - lam[k] * self.J[k] + mu @ self.dg + nu @ self.dh
            self.J[k] = -rest / lam[k]
            axis = rng.randint(n)
            if self.kind == "residual":
                self.J[:, axis] = rng.choice([-1, 1]) * c / scale
                self.dh[:, axis] = 0.0
                self.dg[active, axis] = 0.0
            self.residual = c
            self.critical = c < s_tol
            self.J *= scale
        if not np.all(np.isfinite(self.J)):
            raise AssertionError
        broken = sim.weighted([(None, 14), ("J", 1), ("dh", 1), ("dg", 1)], "non-finite")
        self.broken = False
        if broken == "J":
            self.J[rng.randint(m), rng.randint(n)] = rng.choice([np.nan, np.inf, -np.inf])
            self.broken = True
        elif broken == "dh" and p:
            self.dh[rng.randint(p), rng.randint(n)] = rng.choice([np.nan, np.inf])
            self.broken = True
        elif broken == "dg" and active.any():
            self.dg[rng.choice(np.flatnonzero(active)), rng.randint(n)] = rng.choice([np.nan, -np.inf])
            self.broken = True
        self.truth = bool(self.feasible and self.critical and not self.broken)


class Table:
    """a problem known at some points"""

    def __init__(self, calls):
        self.calls, self.points = calls, {}

    def add(self, point):
        self.points[point.x.tobytes()] = point

    def look(self, site, x, name):
        self.calls.callback(site, x)
        return getattr(self.points[np.asarray(x, dtype=float).tobytes()], name)


def run(sim):
    from hvd.base import State

    n, m = sim.integer(1, 4, "n_var"), sim.integer(1, 3, "n_obj")
    p, q = sim.choose(3, "n_eq"), sim.choose(4, "n_ieq")
    dims = (n, m, p, q)
    tols = (10.0 ** -sim.integer(2, 4, "s_tol"), 10.0 ** -sim.integer(2, 4, "f_tol"), 10.0 ** -sim.integer(2, 4, "a_tol"))
    default = sim.flip(0.3, "default-tolerances")
    if default:
        tols = (1e-4, 1e-4, 1e-4)
    calls = Calls(sim, latency=False)
    table = Table(calls)
    rng = sim.rng("points")

    def new_points(k):
        out = [Point(sim, rng, dims, tols) for _ in range(k)]
        for point in out:
            table.add(point)
        return out

    points = new_points(sim.integer(1, 6, "N"))
    kw = {}
    if p:
        kw.update(h=lambda x: table.look("h", x, "h"), h_jac=lambda x: table.look("h_jac", x, "dh"))
    if q:
        kw.update(g=lambda x: table.look("g", x, "g"), g_jac=lambda x: table.look("g_jac", x, "dg"))
    state = State(n, p, q, lambda x: table.look("func", x, "x")[:1].repeat(m), lambda x: table.look("jac", x, "J"), **kw)
    dual = rng.randn(len(points), p + q)
    width = p + q if sim.flip(0.7, "dual") else 0
    state.update(np.c_[np.array([a.x for a in points]), dual[:, :width]])
    solves, fails = 0, []

    def hook(site, original, args, kwargs, kind):
        nonlocal solves
        solves += 1
        if kind is None:
            return NotImplemented
        fails.append(kind)
        if kind in ("error", "memory", "interrupt", "exit"):
            return NotImplemented  # raised
        size = len(args[0] if args else kwargs["c"])
        if kind == "nothing":
            return OptimizeResult(x=None, fun=None, success=False, status=4, message="injected")
        if kind == "nan":
            return OptimizeResult(x=np.full(size, np.nan), fun=np.nan, success=True, status=0, message="injected")
        x = np.zeros(size)
        x[0] = 1.0
        status = {"iterations": 1, "infeasible": 2, "unbounded": 3, "numerical": 4}[kind]
        return OptimizeResult(x=x, fun=0.0, success=False, status=status, message="injected")

    steps = []
    with kernels(calls, ["linprog"], hook), world.process_state_guard():
        for step in range(sim.integer(1, 5, "steps")):
            what = sim.weighted([("check", 6), ("faulty-check", 6), ("slice", 1), ("update", 2), ("update-one", 2), ("failed-update", 1)], "step")
            where = f"step {step}, {what}"
            steps.append(what)
            calls.plan = {}
            if what == "slice":
                idx = [sim.choose(len(points), "index") for _ in range(sim.integer(1, 3, "n"))]
                state = state[np.array(idx)]
                points = [points[i] for i in idx]
            elif what == "update":
                points = new_points(sim.integer(1, 4, "N"))
                state.update(np.c_[np.array([a.x for a in points]), np.zeros((len(points), width))])
            elif what == "update-one":
                k = sim.choose(len(points), "which")
                points = points[:k] + new_points(1) + points[k + 1:]
                state.update_one(np.r_[points[k].x, np.zeros(width)], k)
            elif what == "failed-update":
                other = new_points(sim.integer(1, 4, "N"))
                site = sim.pick(["func", "jac"] + (["h", "h_jac"] if p else []) + (["g", "g_jac"] if q else []), "site")
                calls.plan = {(site, calls.count.get(site, 0) + sim.choose(len(other), "at")): "error"}
                try:
                    state.update(np.c_[np.array([a.x for a in other]), np.zeros((len(other), width))])
                except SimError:
                    pass
                else:
                    raise Violation("failure-swallowed", where)
            del fails[:]
            start = calls.count.get("linprog", 0)
            if what == "faulty-check":
                calls.plan = {}
                for _ in range(sim.integer(1, 3, "n-faults")):
                    calls.plan[("linprog", start + sim.choose(len(points) + 1, "at"))] = sim.pick(
                        ["iterations", "infeasible", "unbounded", "numerical", "nothing", "nan", "error", "memory", "interrupt", "exit"], "kind"
                    )
            else:
                calls.plan = {}
            before = {k: np.array(v, copy=True) for k, v in vars(state).items() if isinstance(v, np.ndarray)}
            n_evals = sum(v for k, v in calls.count.items() if k != "linprog")
            raised = None
            try:
                got = state.check_KKT() if default and sim.flip(0.7, "implicit") else state.check_KKT(*tols)
            except (SimError, SimMemoryError, SimInterrupt, SimExit) as e:
                raised = e
            except Exception as e:
                raise Violation("check-failed", f"{where}: {e!r}, after {fails}") from e
            for k, v in before.items():
                if not np.array_equal(v, getattr(state, k), equal_nan=True):
                    raise Violation("state-changed", f"{where}: {k}")
            if sum(v for k, v in calls.count.items() if k != "linprog") != n_evals:
                raise Violation("evaluated-again", where)
            stops = [f for f in fails if f in ("interrupt", "exit")]
            if stops and raised is None:
                raise Violation("interrupt-swallowed", where)
            if raised is not None:
                if raised is not calls.last:
                    raise Violation("other-error", f"{where}: {raised!r}")
                continue
            got = np.asarray(got)
            if got.shape != (len(points),) or got.dtype != bool:
                raise Violation("shape", f"{where}: {got.shape} {got.dtype}")
            truth = np.array([a.truth for a in points])
            text = f"{where}: {[(a.kind, a.feasible, a.broken, a.residual) for a in points]}, tolerances {tols}, failures {fails}: {got.tolist()}"
            if np.any(got & ~truth):
                raise Violation("false-certificate", text)
            if np.sum(truth & ~got) > len(fails):
                raise Violation("not-recognised", text)
            sim.probe("points-checked", len(points))
            sim.probe("critical-points", int(truth.sum()))
    sim.cover(dims, tols, *steps, tuple(sorted(sim.faults.items())))
    sim.sample.update(dims=dims, tols=tols, steps=steps)
    sim.log("end", *steps)
