"""C18: preconditioning gives the matrix itself or the matrix plus the smallest sufficient multiple of the identity,
within a factor of two; failing factorisations only increase the multiple.  In an optimizer that means descent."""

import numpy as np
import scipy.linalg

from .. import world
from ..core import SimError, SimInterrupt, SimExit, Violation
from ..threads import Scheduler
from ..world import Calls, Scenario, iterate, kernels

BETA = 1e-6


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401
    import hvd.utils  # noqa: F401


def matrix(sim):
    n = sim.weighted([(1, 2), (2, 3), (3, 3), (5, 2), (8, 1), (20, 1)], "n")
    rng = sim.rng("matrix")
    kind = sim.pick(["random", "definite", "negative", "singular", "arrow", "diagonal", "tiny", "zero", "near", "hollow", "block"], "spectrum")
    Q = scipy.linalg.qr(rng.randn(n, n))[0] if n > 1 else np.ones((1, 1))
    w = rng.randn(n)
    if kind == "definite":
        w = np.abs(w) + 1e-3
    elif kind == "negative":
        w = -np.abs(w) - 1e-3
    elif kind == "singular":
        w = np.where(rng.rand(n) < 0.5, 0.0, np.abs(w))
    elif kind == "tiny":
        w = w * 1e-8
    elif kind == "zero":
        w = w * 0
    elif kind == "near":
        w = np.abs(w)
        w[0] = rng.choice([-1, 1]) * 10.0 ** rng.randint(-14, -2)
    H = Q @ np.diag(w) @ Q.T
    if kind == "arrow":  # positive diagonal, indefinite
        H = np.full((n, n), 1.0 + rng.rand())
        np.fill_diagonal(H, 1.0)
    elif kind == "diagonal":
        H = np.diag(w)
    elif kind == "hollow":
        np.fill_diagonal(H, 0.0)
    elif kind == "block":
        H[: n // 2, n // 2:] = 0
        H[n // 2:, : n // 2] = 0
    H = (H + H.T) / 2 * 10.0 ** sim.integer(-3, 5, "scale")
    return kind, H


def given(sim, H):
    """as the caller may hold it"""
    how = sim.choose(5, "container")
    if how == 1:
        return np.asfortranarray(H)
    if how == 2:
        Z = np.full((2 * len(H), 2 * len(H) + 1), 3.0)
        Z[::2, 1::2] = H
        return Z[::2, 1::2]
    X = H.copy()
    X.flags.writeable = how != 3
    return X


def check(sim, kind, H, out, spurious, where):
    n = len(H)
    size = np.abs(H).max() + 1e-300
    out = np.asarray(out)
    if out.shape != H.shape or not np.all(np.isfinite(out)):
        raise Violation("shape", f"{where}: {kind} {out.shape}, finite: {np.isfinite(out).all()}")
    D = out - H
    tau = float(np.mean(np.diag(D)))
    size = max(size, abs(tau))
    tol = 1e-12 * n * size
    if not np.all(np.abs(D - tau * np.eye(n)) <= tol):
        raise Violation("not-a-shift", f"{where}: {kind} n={n}: differs by {D.tolist()}")
    if tau < -tol:
        raise Violation("negative-shift", f"{where}: {kind} n={n}: {tau}")
    w = scipy.linalg.eigvalsh(H)
    smallest = max(-w[0], 0.0)
    lowest = scipy.linalg.eigvalsh(out)[0]
    if spurious < 40 and lowest < -tol:
        raise Violation("not-definite", f"{where}: {kind} n={n}: smallest eigenvalue {lowest}, of the input {w[0]}")
    if w[0] > tol and not spurious and abs(tau) > tol:
        raise Violation("changed", f"{where}: {kind} n={n}: positive definite, shifted by {tau}")
    need = smallest + tol
    bound = max(2 * need, need + BETA, BETA)
    # every failure that has nothing to do with the matrix may double it
    bound = max(bound, BETA) * 2.0 ** max(spurious, 0)
    if tau > bound * (1 + 1e-9) + tol:
        raise Violation("shift-too-large", f"{where}: {kind} n={n}: {tau}, {need} is enough ({spurious} spurious failures)")
    sim.probe("matrices-checked")
    if tau > tol:
        sim.probe("shifted")


def run(sim):
    what = sim.weighted([("direct", 7), ("threads", 1), ("optimizer", 2)], "what")
    if what == "optimizer":
        return optimizer(sim)
    if what == "threads":
        return threads(sim)
    from hvd.utils import precondition_hessian

    keys = []
    for step in range(sim.integer(1, 4, "calls")):
        kind, H = matrix(sim)
        X = given(sim, H)
        calls = Calls(sim)
        n = sim.weighted([(0, 5), (1, 3), (2, 2), (4, 1), (9, 1), (60, 1)], "n-faults")
        plan = {}
        for i in range(n):
            at = i if n > 9 else sim.choose(10, "at")
            fault = "linalg" if n > 9 else sim.pick(["linalg", "memory", "arithmetic", "error", "linalg", "interrupt", "exit"], "kind")
            plan[("cholesky", at)] = fault
        calls.arm(plan)
        where = f"call {step}"
        raised = None
        with kernels(calls, ["cholesky"]), world.process_state_guard():
            try:
                out = precondition_hessian(X)
            except (SimInterrupt, SimExit) as e:
                raised = e
        if not np.array_equal(X, H):
            raise Violation("input-changed", f"{where}: {kind}")
        stops = [f for f in calls.fired if f[2] in ("interrupt", "exit")]
        if bool(stops) != (raised is not None) or raised is not None and raised is not calls.last:
            raise Violation("interrupt-swallowed", f"{where}: {stops} ended with {raised!r}")
        if calls.total > 500:
            raise Violation("unbounded", f"{where}: {calls.total} factorisations")
        keys.append((kind, len(H), tuple(f[1:] for f in calls.fired)))
        if raised is None:
            check(sim, kind, H, out, len(calls.fired), where)
            # the result is the caller's
            H2 = np.asarray(out).copy()
            if isinstance(out, np.ndarray) and out.flags.writeable:
                out[...] = -1.0
            again = precondition_hessian(H2)
            check(sim, kind + " twice", H2, again, 0, where)
    sim.cover(*keys)
    sim.sample.update(matrices=[str(k) for k in keys])
    sim.log("end", *keys)


def threads(sim):
    from hvd.utils import precondition_hessian

    plans = [[matrix(sim) for _ in range(sim.integer(1, 3, "calls"))] for _ in range(sim.integer(2, 3, "threads"))]

    def body(plan):
        return lambda: [precondition_hessian(H) for _, H in plan]

    results = Scheduler(sim, eagerness=3).run([body(p) for p in plans])
    for plan, (outs, e) in zip(plans, results):
        if e is not None:
            raise e
        for (kind, H), out in zip(plan, outs):
            check(sim, kind, H, out, 0, "threads")
    sim.cover("threads", *[k for p in plans for k, _ in p])
    sim.log("threads")


def optimizer(sim):
    s = Scenario(sim, [("DpN", 5), ("HVN", 4), ("MMDNewton", 1)], constraints=False, n_max=4, n_var_max=3, max_iters=(1, 3))
    s.preconditioning = True
    calls = Calls(sim)
    wide = dict(xl=np.full(s.n_var, -1e3), xu=np.full(s.n_var, 1e3))
    opt = s.build(calls, **wide)
    n = sim.choose(4, "n-faults")
    calls.arm({("cholesky", sim.choose(8, "at")): sim.pick(["linalg", "memory", "error"], "kind") for _ in range(n)})
    with kernels(calls, ["cholesky"]):
        for i in range(s.max_iters):
            try:
                iterate(opt)
            except SimError:
                raise Violation("failure-passed-on", f"{s.kind}: of a factorisation")
            step, R = np.asarray(opt.step), np.asarray(opt.R)
            opt.log()
            if not (np.all(np.isfinite(step)) and np.all(np.isfinite(R))):
                break
            slope = np.sum(step[:, : s.n_var] * R[:, : s.n_var], axis=1)
            scale = np.linalg.norm(step, axis=1) * np.linalg.norm(R, axis=1)
            if s.kind == "HVN":
                slope = -slope
            if s.kind != "DpN":
                slope, scale = np.sum(slope, keepdims=True), np.sum(scale, keepdims=True)
            if np.any(slope > 1e-7 * scale):
                raise Violation("no-descent", f"{s.describe()} iteration {i}: slopes {slope} of {scale}")
            sim.probe("descent-checked")
    sim.cover("optimizer", *s.key())
    sim.log("optimizer", s.kind)
