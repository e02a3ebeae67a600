"""C20: after failures stop, the optimizers converge from nearby to a critical set that an independent solver found;
line searches end; finite iterates stay finite."""

import numpy as np
import scipy.optimize

from .. import linesearch, models, world
from ..core import Skip, Violation
from ..world import CALLBACK_FAULTS, INJECTED, Calls, Scenario, iterate, kernels

KINDS = sorted(CALLBACK_FAULTS)
KERNELS = ["solve", "spsolve", "cholesky", "lstsq", "assignment", "kmedoids"]
SOLVERS = ["solve", "spsolve", "cholesky", "lstsq"]
SOLVER_KINDS = ["linalg", "illcond", "memory", "interrupt"]
STEPS = 8  # undisturbed iterations after which the residual must be gone


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401
    import hvd.reference_set  # noqa: F401


class Target:
    """the optimum of an optimizer's indicator under the equality constraints, by Newton's method on exact models"""

    def __init__(self, s, R):
        self.s, self.R = s, R
        p = s.p
        self.n, self.d, self.q = s.N, s.n_var, p.n_eq

    def derivatives(self, X):
        """gradient (N, d) and Hessian (N, d, N, d) of what is minimised; None where it is not smooth"""
        s, p = self.s, self.s.p
        Y = np.array([p.f(x) for x in X])
        J = np.array([p.jac(x) for x in X])
        H = np.array([p.hess(x) for x in X])
        N = self.n
        if s.kind == "HVN":
            out = models.hv_derivatives(Y, s.ref_point)
            if out is None:
                return None
            G, B = out
            g, h = models.chain(J, H, -G, -B.reshape(N, s.n_obj, N, s.n_obj))
            return g, h
        if s.kind == "DpN":
            g, h = models.matched_derivatives(Y, self.R, J, H)
            full = np.zeros((N, self.d, N, self.d))
            for i in range(N):
                full[i, :, i, :] = h[i]
            return g, full
        G, B = models.mmd_derivatives(Y, self.R, *self.s.mmd_kernel, 0.25 if s.matching else None)
        return models.chain(J, H, G, B)

    def constraints(self, X):
        p = self.s.p
        if not self.q:
            return np.zeros((self.n, 0)), np.zeros((self.n, 0, self.d)), np.zeros((self.n, 0, self.d, self.d))
        return (np.array([np.atleast_1d(p.h(x)) for x in X]), np.array([p.h_jac(x) for x in X]), np.array([p.h_hess(x) for x in X]))

    def solve(self, X):
        """-> X of a strict minimum near by, or None"""
        N, d, q = self.n, self.d, self.q
        n = N * d
        mu = np.zeros((N, q))
        shift = 0.0
        for it in range(60):
            out = self.derivatives(X)
            if out is None:
                return None
            g, h = out[0], out[1].reshape(n, n)
            c, dc, ddc = self.constraints(X)
            W = h.copy()
            for i in range(N):
                W[i * d : i * d + d, i * d : i * d + d] += np.einsum("k,kij->ij", mu[i], ddc[i])
            A = np.zeros((N * q, n))
            for i in range(N):
                A[i * q : i * q + q, i * d : i * d + d] = dc[i]
            # regularised on the tangent space of the constraints until it is near a minimum
            Z = np.linalg.svd(A)[2][np.linalg.matrix_rank(A):].T if q else np.eye(n)
            if Z.shape[1] == 0:
                return None
            w = np.linalg.eigvalsh(Z.T @ W @ Z)
            shift = max(0.0, 0.05 - w[0]) if it < 45 else 0.0
            K = np.block([[W + shift * np.eye(n), A.T], [A, np.zeros((N * q, N * q))]])
            rhs = -np.r_[g.ravel() + A.T @ mu.ravel(), c.ravel()]
            try:
                z = np.linalg.solve(K, rhs)
            except np.linalg.LinAlgError:
                return None
            dx, dmu = z[:n].reshape(N, d), z[n:].reshape(N, q)
            t = min(1.0, 0.3 / max(np.abs(dx).max(), 1e-12))
            X, mu = X + t * dx, mu + t * dmu
            if not np.all(np.isfinite(X)) or np.abs(X).max() > 50:
                return None
            if t == 1 and shift == 0 and np.abs(z).max() < 1e-11:
                spectrum = np.linalg.eigvalsh(Z.T @ W @ Z)
                if spectrum[0] < 0.03 * max(1.0, spectrum[-1]) or (q and np.linalg.svd(A)[1].min() < 0.1):
                    return None
                self.X, self.mu = X, mu
                return X
        return None


def place(sim, s, calls):
    """-> (X*, reference points that the population is matched to)"""
    X = s.X0
    if s.kind == "HVN":
        t = Target(s, None)
        X = t.solve(X)
        if X is None:
            return None
        Y = np.array([s.p.f(x) for x in X])
        if np.any(Y > s.ref_point - 0.1) or len(models.fronts(Y)) > 1 or models.hv_gap(Y, s.ref_point) < 0.02:
            return None
        return X, None
    before = None
    for _ in range(4):
        scout = s.build(calls, x0=X.copy())
        iterate(scout)
        R = np.array(scout.ref.reference_set)
        if before is not None and before.shape == R.shape and np.array_equal(before, R):
            break
        before = R
        t = Target(s, R)
        X = t.solve(X if len(X) else s.X0)
        if X is None:
            return None
    else:
        return None
    Y = np.array([s.p.f(x) for x in X])
    if np.any(X < s.p.xl + 0.03) or np.any(X > s.p.xu - 0.03):
        return None
    if s.kind == "DpN" or s.matching:
        rng = np.random.RandomState(0)
        for _ in range(4):  # the matching is the same all around
            if not np.array_equal(models.assign(R, Y + rng.uniform(-0.03, 0.03, Y.shape)), R):
                return None
    if s.kind == "DpN" and s.type != "igd":
        D = np.linalg.norm(Y[:, None] - R[None], axis=2)
        own = np.diag(D).copy()
        np.fill_diagonal(D, np.inf)
        if len(D) > 1 and np.any(D.min(axis=1) < own + 0.1):
            return None
    if np.any(np.linalg.norm(Y - R, axis=1) < 0.05) if s.kind == "DpN" else False:
        return None  # targets that are reached are moved on
    return X, R


def converge(sim):
    kind = sim.weighted([("DpN", 8), ("HVN", 6), ("MMDNewton", 0.35)], "kind")
    s = Scenario(sim, [(kind, 1)], constraints=False, n_max=3, n_var_max=3)
    if kind != "DpN":
        s.n_obj = 2
    eq = sim.flip(0.35, "equality")
    s.p = world.Problem(sim, s.n_var, s.n_obj, 1 if eq else 0, 0, curvature=sim.choose(2, "curvature"))
    if kind == "MMDNewton":
        s.p.eq_curv = 0.0
    s.preconditioning = s.limit = False
    s.components, s.eta, s.bounds = 1, None, np.array
    s.max_iters = 100
    rng = sim.rng("case")
    p = s.p
    W = rng.dirichlet(np.ones(s.n_obj), s.N)
    X0 = np.array([w @ p.c for w in W])
    if eq:
        a = p.eq_lin[0]
        X0 = X0 - np.outer(X0 @ a - p.eq_b[0], a) / (a @ a)
    s.X0 = np.clip(X0, p.xl + 0.05, p.xu - 0.05)
    low = np.array([p.f(x) for x in s.X0])
    # targets below the front
    s.ref = low - rng.uniform(0.1, 0.4, low.shape) if sim.flip(0.7, "as-many") else np.vstack([low - 0.2, low - 0.25 + 0.05 * rng.rand(*low.shape)])
    corner = np.array([p.f(x) for x in p.c]).max(axis=0)
    s.ref_point = corner + 1.0
    calls = Calls(sim)
    found = place(sim, s, calls)
    if found is None:
        raise Skip()
    X, R = found
    delta = sim.pick([1e-4, 1e-3, 5e-3], "distance")
    start = X + delta * rng.uniform(-1, 1, X.shape)
    opt = s.build(calls, x0=start)
    # failures
    sites = p.sites + KERNELS
    failing = sim.integer(0, 6, "n-failing")
    done = 0
    with kernels(calls, KERNELS):
        for k in range(failing):
            site = sim.pick(sites, "site")
            at = calls.count.get(site, 0) + sim.choose(12, "at")
            fault = sim.pick(KINDS if site not in SOLVERS else SOLVER_KINDS if site != "lstsq" else ["linalg", "memory", "interrupt"], "kind")
            calls.arm({(site, at): fault})
            try:
                iterate(opt)
                opt.log()
                done += 1
            except INJECTED + (np.linalg.LinAlgError,):
                pass
        calls.arm({})
        calls.plan_total = {}
        norms = []
        for k in range(STEPS):
            evals, X_ = calls.count.get("jac", 0), opt.state.X.copy()
            iterate(opt)
            opt.log()
            used = calls.count.get("jac", 0) - evals
            if used > 12 * s.N + 12:
                raise Violation("line-search", f"{s.describe()}: {used} Jacobians in one iteration")
            if len(opt.state.X) == len(X_) and k < 3:
                linesearch.check(sim, s, opt, X_, f"{s.describe()} iteration {k}")
            norms.append(float(np.max(np.linalg.norm(opt.R, axis=1))))
            finite(opt, f"{s.describe()} iteration {k}")
    text = f"{s.describe()}, {delta} away, {failing} disturbed iterations: residuals {['%.1e' % v for v in norms]}"
    if not norms[-1] < 1e-6:
        raise Violation("no-convergence", text)
    far = np.abs(opt.state.primal - X).max()
    if far > 1e-4:
        raise Violation("other-point", f"{text}, ends {far} away from the optimum")
    # the last record is what it converged to
    if not opt.history_R_norm[-1] < 1e-6:
        raise Violation("residual-record", f"{text}: {opt.history_R_norm[-3:]}")
    sim.probe("convergences")
    sim.cover("converge", *s.key(), delta, failing)
    sim.sample.update(s.describe(), distance=delta, disturbed=failing, residuals=norms[:6])
    sim.log("converged", s.kind, norms[-1])


def finite(opt, where):
    for name in ("X", "Y"):
        if not np.all(np.isfinite(getattr(opt.state, name))):
            raise Violation("non-finite", f"{where}: {name} {getattr(opt.state, name).tolist()}")
    if not np.all(np.isfinite(opt.step)):
        raise Violation("non-finite", f"{where}: step {np.asarray(opt.step).tolist()}")


def robust(sim):
    """degenerate problems: constant or identical objectives, singular constraints, coinciding points and targets"""
    s = Scenario(sim, [("DpN", 8), ("HVN", 6), ("Lara", 3), ("MMDNewton", 0.35)], max_iters=(1, 6), n_max=4, n_var_max=3)
    p = s.p
    how = [sim.pick(["none", "constant", "same", "flat", "constraint", "coincide", "on-target", "scaled", "corner"], "degenerate") for _ in range(2)]
    for h in how:
        if h == "constant":
            p.A[0] = 0.0
            p.c[0] = p.c[0]
            if p.q:
                p.q = 0.0
        elif h == "same":
            p.A[:], p.c[:] = p.A[0], p.c[0]
        elif h == "flat":
            p.A[:, 0, :] = p.A[:, :, 0] = 0.0
        elif h == "constraint":
            p.eq_lin[:] = p.eq_lin[0] * 0 if sim.flip(0.5, "zero") else p.eq_lin[0]
            p.ie_lin[:] = p.ie_lin[0]
            for part in p.eq_bend + p.ie_bend:
                part[:] = part[0]
        elif h == "coincide":
            s.X0[:] = s.X0[0]
        elif h == "on-target":
            Y = np.array([p.f(x) for x in s.X0])
            s.ref = np.vstack([Y, s.ref])[: max(len(s.ref), s.N)]
        elif h == "scaled":
            p.A *= sim.pick([1e-6, 1e4], "factor")
        elif h == "corner":
            s.X0[:] = np.where(np.arange(s.n_var) % 2, p.xl, p.xu)
    s.ref_point = np.array([p.f(x) for x in np.vstack([p.xl, p.xu, p.c])]).max(axis=0) * 2 + 5.0
    calls = Calls(sim)
    try:
        opt = s.build(calls)
    except ValueError:
        raise Skip() from None
    with kernels(calls, KERNELS):
        for k in range(s.max_iters):
            if sim.flip(0.3, "faulty"):
                site = sim.pick(p.sites + KERNELS, "site")
                fault = sim.pick(KINDS if site not in SOLVERS else SOLVER_KINDS if site != "lstsq" else ["linalg", "memory", "interrupt"], "kind")
                calls.arm({(site, calls.count.get(site, 0) + sim.choose(8, "at")): fault})
            n, X_ = calls.count.get("jac", 0), opt.state.X.copy()
            try:
                iterate(opt)
                opt.log()
            except INJECTED + (np.linalg.LinAlgError,):
                continue
            finally:
                calls.plan = {}
                used = calls.count.get("jac", 0) - n
                if used > 12 * s.N + 12:
                    raise Violation("line-search", f"{s.describe()} {how}: {used} Jacobians in one iteration")
            if np.abs(opt.state.X).max() > 1e6:
                break
            finite(opt, f"{s.describe()} {how} iteration {k}")
            if len(opt.state.X) == len(X_):
                linesearch.check(sim, s, opt, X_, f"{s.describe()} {how} iteration {k}")
            sim.probe("finite-iterations")
    sim.cover("robust", *s.key(), *how)
    sim.sample.update(s.describe(), degenerate=how)
    sim.log("robust", s.kind, *how)


def run(sim):
    converge(sim) if sim.flip(0.6, "converge") else robust(sim)
