"""The simulated world of one run: user problems, numerical kernels, fault plans, and drivers.

Real code: everything under /repo/hvd (optimizers, State, indicators, reference set, line search).
Simulated: the user's callbacks (pure NumPy functions behind a fault-injecting seam), the numerical kernels'
failure behaviour (SciPy/NumPy/scikit-learn-extra functions are wrapped, and fail when the plan says so),
the global random state, the clock.
"""

import importlib
import logging
import sys
import threading
import warnings
from contextlib import contextmanager
from copy import deepcopy

import numpy as np
import scipy.linalg
import scipy.optimize
import scipy.sparse.linalg
import scipy.spatial.distance
from scipy.linalg import LinAlgError, LinAlgWarning

from .core import (
    SimArithmeticError,
    SimError,
    SimExit,
    SimInterrupt,
    SimMemoryError,
    SimOSError,
    Violation,
)

CALLBACK_FAULTS = {
    "error": SimError,
    "oserror": SimOSError,
    "memory": SimMemoryError,
    "arithmetic": SimArithmeticError,
    "interrupt": SimInterrupt,
    "exit": SimExit,
}
for _e in (SimInterrupt, SimExit):
    _e.injected = True
INJECTED = tuple(CALLBACK_FAULTS.values())


def _guarded_spsolve(original):
    """SuperLU (SciPy 1.11) corrupts memory on exactly singular matrices before it reports them; the simulated
    solver reports those itself, the way SciPy does."""

    def spsolve(A, b, *args, **kwargs):
        D = A.toarray() if hasattr(A, "toarray") else np.asarray(A)
        if D.ndim == 2 and D.shape[0] == D.shape[1] and D.size:
            finite = np.isfinite(D).all()
            if not finite or np.linalg.matrix_rank(D) < len(D):
                warnings.warn("Matrix is exactly singular", scipy.sparse.linalg.MatrixRankWarning)
                return np.full(len(D), np.nan)
        return original(A, b, *args, **kwargs)

    spsolve.guarded = True
    return spsolve


def import_hvd():
    if not hasattr(scipy.sparse.linalg.spsolve, "guarded"):
        original, safe = scipy.sparse.linalg.spsolve, _guarded_spsolve(scipy.sparse.linalg.spsolve)
        for name, module in list(sys.modules.items()):
            if name.startswith(("scipy.sparse", "hvd")) and getattr(module, "spsolve", None) is original:
                module.spsolve = safe
    import hvd  # noqa: F401
    import hvd.gradient_based  # noqa: F401
    import hvd.newton  # noqa: F401

    logging.raiseExceptions = False


# ------------------------------------------------------------------------------------------------------
# fault plans and call sites
# ------------------------------------------------------------------------------------------------------
class Calls:
    """Every call that leaves the code under test: counted, logged, observable, and able to fail."""

    def __init__(self, sim, latency=True):
        self.sim = sim
        self.count = {}
        self.total = 0
        self.plan = {}  # (site, index) -> fault kind
        self.plan_total = {}  # index over all sites -> fault kind
        self.fired = []
        self.observers = []
        self.limit = 60_000
        self.latency = latency
        self.record = None  # list of (site, x) when recording

    def arm(self, plan):
        self.plan = dict(plan)
        return self

    def enter(self, site, x=None):
        i = self.count.get(site, 0)
        self.count[site] = i + 1
        self.total += 1
        if self.latency:
            self.sim.clock += 1e-4
        if self.record is not None:
            self.record.append((site, None if x is None else np.array(x, dtype=float)))
        if self.total > self.limit:
            raise Violation("no-progress", f"{self.total} calls of user callbacks and kernels")
        for f in self.observers:
            f(site, x)
        kind = self.plan.get((site, i)) or self.plan_total.pop(self.total, None)
        if kind is not None:
            self.fired.append((site, i, kind))
            self.sim.fault(f"{site}:{kind}")
            return kind
        return None

    def callback(self, site, x):
        kind = self.enter(site, x)
        if kind is not None:
            self.throw(site, kind)

    def throw(self, site, kind):
        self.last = CALLBACK_FAULTS[kind](f"injected at {site}")
        raise self.last


def plan_faults(sim, counts, sites, n_max, kinds, label="fault"):
    """Draw up to `n_max` faults: site, call index below the count seen in the fault-free run, kind."""
    n = sim.integer(0, n_max, f"{label}.n")
    plan = {}
    available = [s for s in sites if counts.get(s, 0) > 0]
    for _ in range(n):
        if not available:
            break
        site = sim.pick(available, f"{label}.site")
        plan[(site, sim.choose(counts[site], f"{label}.at"))] = sim.pick(kinds, f"{label}.kind")
    return plan


# ------------------------------------------------------------------------------------------------------
# problems
# ------------------------------------------------------------------------------------------------------
def _bend(bend, d):
    """convex functions of d, one per row of `bend`"""
    w, r = bend
    return w * np.sum(d**2 + 0.25 * d**4) + 0.5 * (r @ d) ** 2


def _bend_jac(bend, d):
    w, r = bend
    return w[:, None] * (2 * d + d**3)[None, :] + (r @ d)[:, None] * r


def _bend_hess(bend, d):
    w, r = bend
    return w[:, None, None] * np.diag(2 + 3 * d**2)[None] + r[:, :, None] * r[:, None, :]


class Problem:
    """A smooth multi-objective problem given by pure functions; `callbacks()` puts them behind `Calls`."""

    def __init__(self, sim, n_var, n_obj, n_eq=0, n_ieq=0, curvature=None, outside=False, cube=False):
        rng = sim.rng("problem")
        self.n_var, self.n_obj, self.n_eq, self.n_ieq = n_var, n_obj, n_eq, n_ieq
        self.xl = np.round(rng.uniform(-1.0, 0.0, n_var), 3)
        self.xu = self.xl + np.round(rng.uniform(1.0, 3.0, n_var), 3)
        if cube:  # the same bounds for all variables
            self.xl[:], self.xu[:] = self.xl[0], self.xu[0]
        width = self.xu - self.xl
        lo, hi = (-0.3, 1.3) if outside else (0.2, 0.8)
        self.c = self.xl + width * rng.uniform(lo, hi, (n_obj, n_var))
        self.A = np.zeros((n_obj, n_var, n_var))
        for k in range(n_obj):
            B = rng.randn(n_var, n_var) * 0.3
            self.A[k] = B @ B.T + np.diag(rng.uniform(0.5, 2.0, n_var))
        curvature = sim.choose(3, "curvature") if curvature is None else curvature
        self.q = [0.0, 0.1, 0.5][curvature]  # weight of the quartic term
        mid = self.c.mean(axis=0)
        self.mid = mid
        self.eq_lin = rng.randn(max(n_eq, 1), n_var)
        self.eq_b = self.eq_lin @ mid
        self.eq_curv = sim.choose(2, "eq-curved") * 0.3 if n_eq else 0.0
        self.ie_lin = rng.randn(max(n_ieq, 1), n_var)
        self.ie_b = self.ie_lin @ mid + rng.uniform(-0.4, 0.4, max(n_ieq, 1))
        self.scalar_eq = bool(n_eq == 1 and sim.choose(2, "scalar-eq"))
        self.scalar_ie = bool(n_ieq == 1 and sim.choose(2, "scalar-ie"))
        # the constraints bend differently, in directions of their own, and more further out
        self.eq_bend = rng.uniform(0.5, 1.5, max(n_eq, 1)), 0.7 * rng.randn(max(n_eq, 1), n_var)
        self.ie_bend = rng.uniform(0.5, 1.5, max(n_ieq, 1)), 0.7 * rng.randn(max(n_ieq, 1), n_var)

    # -- pure functions
    def f(self, x):
        d = x - self.c
        return 0.5 * np.einsum("ki,kij,kj->k", d, self.A, d) + self.q * 0.25 * np.sum(d**4, axis=1)

    def jac(self, x):
        d = x - self.c
        return np.einsum("kij,kj->ki", self.A, d) + self.q * d**3

    def hess(self, x):
        d = x - self.c
        return self.A + self.q * 3 * np.einsum("ki,ij->kij", d**2, np.eye(self.n_var))

    def h(self, x):
        v = self.eq_lin @ x - self.eq_b + self.eq_curv * _bend(self.eq_bend, x - self.mid)
        return float(v[0]) if self.scalar_eq else v

    def h_jac(self, x):
        return self.eq_lin + self.eq_curv * _bend_jac(self.eq_bend, x - self.mid)

    def h_hess(self, x):
        return self.eq_curv * _bend_hess(self.eq_bend, x - self.mid)

    def g(self, x):
        return self.ie_lin @ x - self.ie_b + 0.1 * _bend(self.ie_bend, x - self.mid)

    def g_user(self, x):
        v = self.g(x)
        return float(v[0]) if self.scalar_ie else v

    def g_jac(self, x):
        return self.ie_lin + 0.1 * _bend_jac(self.ie_bend, x - self.mid)

    def g_hess(self, x):
        return 0.1 * _bend_hess(self.ie_bend, x - self.mid)

    SITES = {"func": "f", "jac": "jac", "hess": "hess", "h": "h", "h_jac": "h_jac", "h_hess": "h_hess",
             "g": "g_user", "g_jac": "g_jac", "g_hess": "g_hess"}

    @property
    def sites(self):
        out = ["func", "jac", "hess"]
        if self.n_eq:
            out += ["h", "h_jac", "h_hess"]
        if self.n_ieq:
            out += ["g", "g_jac", "g_hess"]
        return out

    def callbacks(self, calls, style="closure"):
        """style: closure | bound (methods of an object that must not be copied) | batch[-readonly|-reused]
        (methods with *_batch variants returning fresh arrays, read-only arrays, or one buffer reused by each call)"""
        if style == "closure":
            return {s: _closure(calls, s, getattr(self, self.SITES[s])) for s in self.sites}
        user = (BatchUser if style.startswith("batch") else User)(self, calls)
        user.mode = style
        return {s: getattr(user, s) for s in self.sites}

    def truth(self, X):
        """what a State at the primal points `X` must contain"""
        n = len(X)
        out = dict(
            Y=np.array([self.f(x) for x in X]).reshape(n, self.n_obj),
            J=np.array([self.jac(x) for x in X]).reshape(n, self.n_obj, self.n_var),
        )
        H = np.array([np.atleast_1d(self.h(x)) for x in X]).reshape(n, self.n_eq) if self.n_eq else np.zeros((n, 0))
        G = np.array([self.g(x) for x in X]).reshape(n, self.n_ieq) if self.n_ieq else np.zeros((n, 0))
        out["cstr_value"] = np.c_[H, G]
        out["active_indices"] = np.c_[np.ones((n, self.n_eq), dtype=bool), G >= -1e-4]
        d = [np.zeros((n, 0, self.n_var))]
        dd = [np.zeros((n, 0, self.n_var, self.n_var))]
        if self.n_eq:
            d.append(np.array([self.h_jac(x) for x in X]))
            dd.append(np.array([self.h_hess(x) for x in X]))
        if self.n_ieq:
            d.append(np.array([self.g_jac(x) for x in X]))
            dd.append(np.array([self.g_hess(x) for x in X]))
        out["cstr_grad"] = np.concatenate(d, axis=1)
        out["cstr_hess"] = np.concatenate(dd, axis=1)
        return out


def _closure(calls, site, pure):
    def call(x):
        x = np.asarray(x)
        calls.callback(site, x)
        return pure(x)

    return call


class User:
    """The user's problem object: it owns a lock, so code that copies it fails."""

    def __init__(self, problem, calls):
        self.problem = problem
        self.calls = calls
        self.lock = threading.Lock()

    def _do(self, site, x):
        x = np.asarray(x)
        self.calls.callback(site, x)
        return getattr(self.problem, Problem.SITES[site])(x)


class BatchUser(User):
    def _many(self, site, x):
        self.calls.count[site + "_batch"] = self.calls.count.get(site + "_batch", 0) + 1
        out = np.stack([self._do(site, row) for row in np.asarray(x)])
        if self.mode == "batch-readonly":
            out.setflags(write=False)
        elif self.mode == "batch-reused":
            buffers = self.__dict__.setdefault("buffers", {})
            old = buffers.get(site)
            if old is None or old.shape[1:] != out.shape[1:] or len(old) < len(out):
                old = buffers[site] = np.empty_like(out)
            old[: len(out)] = out
            return old[: len(out)]
        return out


def _method(site):
    def method(self, x):
        return self._do(site, x)

    method.__name__ = site
    return method


def _many(site):
    def method(self, x):
        return self._many(site, x)

    method.__name__ = site + "_batch"
    return method


for _s in Problem.SITES:
    setattr(User, _s, _method(_s))
    setattr(BatchUser, _s + "_batch", _many(_s))


# ------------------------------------------------------------------------------------------------------
# scenarios and drivers
# ------------------------------------------------------------------------------------------------------
ITERATE = {"HVN": "iterate", "DpN": "newton_iteration", "MMDNewton": "newton_iteration", "Lara": "iteration"}


STYLES = ["closure", "bound", "batch", "batch-readonly", "batch-reused"]


class Scenario:
    """configuration of one optimizer; `build(calls)` makes a fresh instance on fresh copies of the inputs"""

    def __init__(self, sim, kinds, constraints=True, max_iters=(1, 6), outside=False, n_max=6, n_var_max=4, sampled=False):
        self.kind = sim.weighted(kinds, "optimizer")
        self.n_obj = 2 + sim.choose(2, "n_obj")
        self.n_var = sim.integer(2, n_var_max, "n_var")
        # now and then something out of the ordinary
        unusual = sim.pick(["larger", "longer", "wider", "sampled", "cube", "kernel", "directions"], "unusual") if sim.flip(0.12, "is-unusual") else None
        if unusual == "wider":
            self.n_obj, self.n_var = sim.integer(2, 4, "n_obj"), sim.integer(1, 7, "n_var")
        cstr = sim.choose(4, "constraints") if constraints and self.kind != "Lara" else 0
        n_eq = 1 + (self.n_var > 2 and sim.choose(4, "n_eq") == 3) if cstr in (1, 3) else 0
        n_ieq = 1 + sim.choose(3, "n_ieq") if cstr in (2, 3) else 0
        self.p = Problem(sim, self.n_var, self.n_obj, n_eq, n_ieq, outside=outside, cube=unusual == "cube")
        self.N = sim.integer(1, n_max, "N")
        if unusual == "larger" and self.kind != "MMDNewton":
            self.N = sim.integer(n_max, 16, "N")
        rng = sim.rng("x0")
        X0 = self.p.xl + (self.p.xu - self.p.xl) * rng.uniform(0.05, 0.95, (self.N, self.n_var))
        if sim.flip(0.2, "x0-on-boundary"):
            mask = rng.rand(*X0.shape) < 0.3
            X0 = np.where(mask, np.where(rng.rand(*X0.shape) < 0.5, self.p.xl, self.p.xu), X0)
        if self.N > 1 and sim.flip(0.15, "x0-duplicate"):
            X0[-1] = X0[0]
        self.X0 = X0
        self.max_iters = sim.integer(*max_iters, "max_iters")
        if unusual == "longer":
            self.max_iters = sim.integer(max_iters[1], 3 * max_iters[1] + 4, "max_iters")
        self.default_iters = False
        # the optimizer samples its start itself; bounds may be lists
        self.sampled = 1 + sim.choose(1 << 20, "sampled") if unusual == "sampled" and sampled else None
        self.bounds = sim.pick([np.array, list, tuple], "bounds")
        if unusual == "cube":
            self.bounds = sim.pick([lambda b: float(b[0]), lambda b: [b[0]]], "one-bound")
        self.style = sim.pick(STYLES, "callback-style")
        self.preconditioning = sim.flip(0.2, "preconditioning")
        self.limit = sim.flip(0.3, "limit-step") if self.kind == "HVN" else False
        self.type = sim.pick(["deltap", "igd", "gd"], "deltap-type") if self.kind == "DpN" else None
        self.matching = sim.choose(2, "no-matching") == 0 if self.kind == "MMDNewton" else None
        self.kernel = None
        if unusual == "kernel" and self.kind == "MMDNewton":
            self.kernel = sim.pick(["rbf", "rational_quadratic"], "kernel"), sim.pick([0.3, 1.0, 2.5], "theta")
        # reference set: images of random convex combinations of the individual minimisers, moved down
        M = self.N + sim.integer(self.n_obj, 10, "M")
        W = rng.dirichlet(np.ones(self.n_obj), M)
        R = np.array([self.p.f(w @ self.p.c) for w in W]) - rng.uniform(0.0, 0.1)
        self.ref = R
        self.components = 1
        if self.kind in ("DpN", "MMDNewton") and self.type != "gd" and self.matching is not False and sim.flip(0.2, "components"):
            self.components = 2
        self.eta = None  # directions given by the user: for each component, or one
        if unusual == "directions":
            d = -rng.dirichlet(np.ones(self.n_obj), self.components)
            d /= np.linalg.norm(d, axis=1, keepdims=True)
            self.eta = dict(enumerate(d)) if sim.flip(0.5, "eta-dict") else d[0]
        corner = np.array([self.p.f(x) for x in np.vstack([self.p.xl, self.p.xu, self.p.c])]).max(axis=0)
        self.ref_point = corner * 2 + 5.0

    @property
    def mmd_kernel(self):
        """theta and kernel in force"""
        return (self.kernel[1], self.kernel[0]) if self.kernel else (1.0, "rbf")

    def describe(self):
        return dict(
            kind=self.kind, n_var=self.n_var, n_obj=self.n_obj, N=self.N, n_eq=self.p.n_eq, n_ieq=self.p.n_ieq,
            max_iters=self.max_iters, style=self.style, type=self.type, matching=self.matching,
            components=self.components, preconditioning=self.preconditioning, limit=self.limit,
            kernel=self.kernel, directions=None if self.eta is None else type(self.eta).__name__,
        )

    def key(self):
        return tuple(self.describe().values())

    def reference_set(self):
        from hvd.reference_set import ReferenceSet

        R = self.ref.copy()
        if self.components == 2:
            order = np.argsort(R[:, 0])
            # both components can serve the whole population
            half = R[order]
            far = half + np.r_[-0.3, np.full(self.n_obj - 1, 0.3)]
            return ReferenceSet(ref={0: half, 1: far}, eta=deepcopy(self.eta))
        return ReferenceSet(ref=R, eta=deepcopy(self.eta))

    def build(self, calls, metrics=None, max_iters=None, verbose=False, x0=None, **kwargs):
        cb = self.p.callbacks(calls, self.style)
        X0 = self.X0.copy() if x0 is None else x0
        if self.sampled:
            X0 = None
            np.random.seed(self.sampled)
        max_iters = self.max_iters if max_iters is None else max_iters
        common = dict(max_iters=None if self.default_iters else max_iters, verbose=verbose)
        if self.sampled:
            common.update(N=self.N)
        if metrics is not None:
            common.update(metrics=metrics)
        xl, xu = kwargs.pop("xl", self.bounds(self.p.xl)), kwargs.pop("xu", self.bounds(self.p.xu))
        ref = kwargs.pop("ref", None)
        common.update(kwargs)
        cstr = {}
        if self.p.n_eq:
            cstr.update(h=cb["h"], h_jac=cb["h_jac"])
        if self.p.n_ieq:
            cstr.update(g=cb["g"], g_jac=cb["g_jac"])
        if self.kind in ("HVN", "DpN"):
            if self.p.n_eq:
                cstr.update(h_hessian=cb["h_hess"])
            if self.p.n_ieq:
                cstr.update(g_hessian=cb["g_hess"])
        if self.kind == "HVN":
            from hvd.newton import HVN

            return HVN(
                n_var=self.n_var, n_obj=self.n_obj, func=cb["func"], jac=cb["jac"], hessian=cb["hess"],
                ref=self.ref_point.copy() if ref is None else ref, xl=xl, xu=xu, X0=X0,
                preconditioning=self.preconditioning, limit_max_step_size=self.limit, **cstr, **common,
            )
        if self.kind == "DpN":
            from hvd.newton import DpN

            return DpN(
                dim=self.n_var, n_obj=self.n_obj, func=cb["func"], jac=cb["jac"], hessian=cb["hess"],
                ref=self.reference_set() if ref is None else ref, xl=xl, xu=xu, x0=X0, type=self.type,
                preconditioning=self.preconditioning, **cstr, **common,
            )
        if self.kind == "MMDNewton":
            from hvd.mmd import rational_quadratic, rbf
            from hvd.mmd_newton import MMDNewton

            if self.kernel:
                common.update(kernel=dict(rbf=rbf, rational_quadratic=rational_quadratic)[self.kernel[0]], theta=self.kernel[1])
            return MMDNewton(
                n_var=self.n_var, n_obj=self.n_obj, func=cb["func"], jac=cb["jac"], hessian=cb["hess"],
                ref=self.reference_set() if ref is None else ref, xl=xl, xu=xu, X0=X0,
                preconditioning=self.preconditioning, matching=self.matching, **cstr, **common,
            )
        from hvd.gradient_based import Lara

        return Lara(
            n_var=self.n_var, n_obj=self.n_obj, func=cb["func"], jac=cb["jac"], xl=xl, xu=xu, X0=X0, **common
        )


def iterate(opt):
    getattr(opt, ITERATE[type(opt).__name__])()


STATE_ARRAYS = ("Y", "J", "cstr_value", "active_indices", "cstr_grad", "cstr_hess")


def check_state(problem, state, where, tol=1e-12, T=None, hess=True):
    """X, Y, J and the constraint data of a State describe the same points; `hess`: constraint Hessians are given"""
    if "X" not in vars(state):
        return
    X = np.asarray(state.X)
    T = problem.truth(X[:, : problem.n_var]) if T is None else T
    for name in STATE_ARRAYS:
        value = getattr(state, name, None)
        if value is None:
            raise Violation(f"state-missing-{name}", where)
        value = np.asarray(value)
        want = T[name]
        if name == "cstr_hess" and not hess:
            want = np.zeros_like(want)
        if value.shape != want.shape:
            raise Violation(f"state-shape-{name}", f"{where}: {value.shape} instead of {want.shape}")
        if name == "active_indices":
            if not np.array_equal(value, want):
                near = np.abs(T["cstr_value"] + 1e-4) < 1e-9
                if not np.array_equal(value | near, want | near):
                    raise Violation(f"state-{name}", f"{where}: inconsistent with X")
        elif not np.allclose(value, want, rtol=tol, atol=tol, equal_nan=True):
            raise Violation(f"state-{name}", f"{where}: off by {np.nanmax(np.abs(value - want)):.3g}")


# ------------------------------------------------------------------------------------------------------
# numerical kernels
# ------------------------------------------------------------------------------------------------------
@contextmanager
def replaced(original, make):
    """Replace `original` (a function object) by `make(original)` in every module that refers to it."""
    wrapper = make(original)
    undo = []
    for name, module in list(sys.modules.items()):
        if module is None or not (name == "hvd" or name.startswith(("hvd.", "scipy.linalg", "scipy.optimize", "scipy.sparse.linalg", "numpy.linalg", "scripts"))):
            continue
        for attr, value in list(vars(module).items()):
            if value is original:
                setattr(module, attr, wrapper)
                undo.append((module, attr))
    try:
        yield wrapper
    finally:
        for module, attr in undo:
            setattr(module, attr, original)


KERNELS = {
    "solve": lambda: scipy.linalg.solve,
    "spsolve": lambda: scipy.sparse.linalg.spsolve,
    "cholesky": lambda: scipy.linalg.cholesky,
    "lstsq": lambda: np.linalg.lstsq,
    "assignment": lambda: scipy.optimize.linear_sum_assignment,
    "linprog": lambda: scipy.optimize.linprog,
    "cdist": lambda: scipy.spatial.distance.cdist,
    "hausdorff": lambda: scipy.spatial.distance.directed_hausdorff,
}


@contextmanager
def kernels(calls, names, hook=None):
    """Route the named kernels through `calls`.

    Fault kinds: interrupt | memory | linalg (LinAlgError) | illcond (LinAlgWarning / MatrixRankWarning, and for
    the sparse solver a result full of nan as SciPy does)"""
    from contextlib import ExitStack

    def make(site):
        def wrap(original):
            def kernel(*args, **kwargs):
                kind = calls.enter(site)
                if hook is not None:
                    out = hook(site, original, args, kwargs, kind)
                    if out is not NotImplemented:
                        return out
                if kind is None:
                    return original(*args, **kwargs)
                if kind == "linalg":
                    raise LinAlgError("injected")
                if kind == "illcond":
                    if site == "spsolve":
                        warnings.warn("injected: singular", scipy.sparse.linalg.MatrixRankWarning)
                        return np.full(np.shape(args[1])[0], np.nan)
                    warnings.warn("injected: ill-conditioned", LinAlgWarning)
                    return original(*args, **kwargs)
                calls.throw(site, kind)

            kernel.__name__ = getattr(original, "__name__", site)
            return kernel

        return wrap

    with ExitStack() as stack:
        for name in names:
            if name == "kmedoids":
                from sklearn_extra.cluster import KMedoids

                original = KMedoids.fit

                def fit(self, *a, _o=original, **k):
                    kind = calls.enter("kmedoids")
                    if kind is not None:
                        calls.throw("kmedoids", kind)
                    return _o(self, *a, **k)

                KMedoids.fit = fit
                stack.callback(setattr, KMedoids, "fit", original)
            else:
                stack.enter_context(replaced(KERNELS[name](), make(name)))
        yield


@contextmanager
def process_state_guard(kind="process-state"):
    """warning filters, floating-point error handling and the working directory are as they were"""
    import os

    filters = list(warnings.filters)
    err = np.geterr()
    cwd = os.getcwd()
    yield
    if list(warnings.filters) != filters:
        new = [f for f in warnings.filters if f not in filters]
        warnings.filters[:] = filters
        raise Violation(f"{kind}-warning-filters", f"left behind: {new[:2]}")
    if np.geterr() != err:
        np.seterr(**err)
        raise Violation(f"{kind}-errstate", "floating point error handling changed")
    if os.getcwd() != cwd:
        raise Violation(f"{kind}-cwd", "working directory changed")


def reload_all():
    importlib.invalidate_caches()
