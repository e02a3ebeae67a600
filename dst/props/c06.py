"""C06: the Newton step solves the KKT system, even when the direct solver fails."""

import numpy as np

from .. import models, world
from ..core import Skip, Violation
from ..world import INJECTED, Calls, Scenario, iterate, kernels

SOLVERS = ["solve", "spsolve", "cholesky", "lstsq"]


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401


def degenerate(sim, s):
    """make the KKT systems singular"""
    how = sim.pick(["regular", "regular", "redundant-constraint", "flat-variable"], "degenerate")
    p = s.p
    if how == "redundant-constraint":
        if p.n_ieq < 2:
            return "regular"
        p.ie_lin[1], p.ie_b[1] = p.ie_lin[0], p.ie_b[0]
        for part in p.ie_bend:
            part[1] = part[0]
        p.ie_b[:] -= sim.choose(2, "active") * 2.0
    elif how == "flat-variable":
        k = sim.choose(p.n_var, "flat")
        p.A[:, k, :] = 0
        p.A[:, :, k] = 0
        p.q = 0.0
        p.eq_lin[:, k] = 0
        p.eq_b = p.eq_lin @ p.mid
        p.ie_lin[:, k] = 0
        flat = np.ones(p.n_var)
        flat[k] = 0.0
        # curvature of the constraints leaves out the flat variable, too
        p.eq_curv = 0.0
        p.g = lambda x: p.ie_lin @ x - p.ie_b + 0.1 * np.sum(((x - p.mid) * flat) ** 2)
        p.g_jac = lambda x: p.ie_lin + 0.2 * ((x - p.mid) * flat)[None, :]
        p.g_hess = lambda x: np.tile(0.2 * np.diag(flat), (p.n_ieq, 1, 1))
        s.ref = np.array([p.f(p.xl + (p.xu - p.xl) * w) for w in sim.rng("ref").rand(len(s.ref), p.n_var)]) - 0.05
    return how


def run(sim):
    s = Scenario(sim, [("HVN", 3), ("DpN", 4), ("MMDNewton", 0.8)], max_iters=(1, 4), n_max=5, n_var_max=3)
    how = degenerate(sim, s)
    if s.N > 1 and np.array_equal(s.X0[-1], s.X0[0]):
        s.X0[-1] += 0.07 * (s.p.mid - s.X0[-1]) + 0.01
    if s.kind == "HVN" and s.n_obj == 3 and s.N > 4:
        s.X0, s.N = s.X0[:4], 4
    sim.sample.update(s.describe(), degenerate=how)
    calls = Calls(sim)
    seen = {"refs": []}

    def observe(site, x):
        opt = seen.get("opt")
        if opt is not None and s.kind != "HVN" and site in ("hess", "solve", "lstsq"):
            seen["refs"].append(np.array(opt.ref.reference_set))
            seen["refs"] = seen["refs"][-3:]

    calls.observers.append(observe)
    checked = 0
    with kernels(calls, SOLVERS):
        opt = s.build(calls)
        seen["opt"] = opt
        for _ in range(sim.integer(0, 3, "n-faults")):
            at = (sim.pick(["solve", "spsolve", "cholesky"], "site"), sim.choose(3 * s.N if s.kind == "DpN" else 3, "at"))
            calls.plan[at] = sim.pick(["linalg", "illcond", "error", "arithmetic", "memory"], "kind")
        sim.cover(s.key(), how, tuple(sorted(calls.plan.items())))
        for it in range(s.max_iters):
            seen["refs"].clear()
            X = np.array(opt.state.X)
            fired = len(calls.fired)
            iterate(opt)
            opt.log()
            if len(opt.state.X) != len(X):
                raise Skip()  # a duplicate was dropped
            failed = {f[0] for f in calls.fired[fired:]}
            if failed:
                sim.probe("solver-failures", len(calls.fired) - fired)
            refs = seen["refs"] + ([np.array(opt.ref.reference_set)] if s.kind != "HVN" else [])
            if check(s, opt, X, refs, "cholesky" in failed):
                checked += 1
                sim.probe("steps-checked")
                if failed:
                    sim.probe("steps-checked-after-solver-failure")
            moved = opt.state.X - X
            size = np.asarray(opt.step_size, dtype=float).reshape(-1, 1)
            want = size * opt.step
            if not np.allclose(moved, want, rtol=1e-7, atol=1e-9 * (1 + np.abs(X).max()), equal_nan=True):
                raise Violation("iterate-not-along-step", f"{s.kind}: off by {np.abs(moved - want).max():.3g}")
    sim.log("end", opt.state.X)
    if not checked:
        sim.probe("nothing-checked")


def check(s, opt, X, refs, precondition_failed):
    """compare the step and the residual with those of the reference model; False if nothing could be compared"""
    p, d = s.p, s.n_var
    N = len(X)
    x, dual = X[:, :d], X[:, d:]
    T = p.truth(x)
    Y, J, C, act, dC, ddC = (T[k] for k in ("Y", "J", "cstr_value", "active_indices", "cstr_grad", "cstr_hess"))
    if not np.isfinite(X).all() or np.abs(X).max() > 1e6:
        return False
    if C.size and np.abs(C + 1e-4).min() < 1e-9:
        return False
    H = np.array([p.hess(v) for v in x])
    n_c = dual.shape[1]
    curved = ddC if s.kind != "MMDNewton" else np.zeros_like(ddC)
    groups = [[i] for i in range(N)] if s.kind == "DpN" else [list(range(N))]
    sign = 1.0
    alternatives = []
    if s.kind == "HVN":
        sign = -1.0
        feasible = np.all(np.abs(C[:, : p.n_eq]) <= 1e-4, axis=1) & np.all(C[:, p.n_eq :] < -1e-4, axis=1)
        if p.n_eq and np.abs(np.abs(C[:, : p.n_eq]) - 1e-4).min() < 1e-9:
            return False
        idx = np.nonzero(feasible)[0]
        groups = [list(range(N))]
        if len(idx):
            groups = [list(idx[f]) for f in models.fronts(Y[idx])]
            groups[0] = sorted(groups[0] + list(np.nonzero(~feasible)[0]))
        grad, blocks = np.zeros((N, d)), np.zeros((N, d, N, d))
        for grp in groups:
            if not np.all(Y[grp] < s.ref_point):
                return False  # the reference point is meant to lie beyond the points
            D = models.hv_derivatives(Y[grp], s.ref_point)
            if D is None:
                return False
            for M in D:
                M[np.abs(M) < 1e-9 * np.abs(M).max()] = 0.0
            g, h = models.chain(J[grp], H[grp], D[0], D[1].reshape(len(grp), s.n_obj, len(grp), s.n_obj))
            grad[grp] = g
            blocks[np.ix_(grp, range(d), grp, range(d))] = h
        alternatives.append((grad, blocks))
    elif s.kind == "DpN":
        gd = s.type == "gd" or (s.type == "deltap" and opt.GD_value > opt.IGD_value)
        for R in refs:
            g, h = (models.gd_derivatives if gd else models.matched_derivatives)(Y, R, J, H)
            alternatives.append((g, _diag(h)))
            if not gd and s.components == 1:
                g, h = models.matched_derivatives(Y, models.assign(R, Y), J, H)
                alternatives.append((g, _diag(h)))
    else:
        for R in refs:
            D = models.mmd_derivatives(Y, R, *s.mmd_kernel, opt.indicator.beta if s.matching else None)
            alternatives.append(models.chain(J, H, *D))
            if s.matching and s.components == 1:
                D = models.mmd_derivatives(Y, models.assign(R, Y), *s.mmd_kernel, opt.indicator.beta)
                alternatives.append(models.chain(J, H, *D))
    tol = 1e-7 if s.kind != "HVN" else 1e-5
    outcome, why = None, ""
    for grad, blocks in alternatives:
        res, why_ = compare(s, opt, X, grad, blocks, groups, C, act, dC, curved, sign, tol, precondition_failed)
        if res is None:
            outcome = None
            break
        outcome = res if outcome is None else (outcome or res)
        why = why or why_
        if outcome:
            break
    if outcome is None:
        return False
    if not outcome:
        raise Violation(f"newton-{why.split(':')[0]}", f"{s.kind} {s.type or ''}: {why}")
    return True


def _diag(h):
    N, d, _ = h.shape
    B = np.zeros((N, d, N, d))
    for i in range(N):
        B[i, :, i, :] = h[i]
    return B


def compare(s, opt, X, grad, blocks, groups, C, act, dC, ddC, sign, tol, precondition_failed):
    """-> (True | False | None = cannot tell, reason)"""
    d = s.n_var
    N, n_c = len(X), X.shape[1] - d
    dual = X[:, d:]
    R = np.zeros_like(X)
    R[:, :d] = grad
    for i in range(N):
        for k in range(n_c):
            if act[i, k]:
                R[i, :d] += dual[i, k] * dC[i, k]
                R[i, d + k] = C[i, k]
    scale = 1 + np.abs(R).max()
    if not np.allclose(opt.R, R, rtol=tol, atol=tol * scale):
        return False, f"residual: off by {np.abs(np.asarray(opt.R) - R).max():.3g}"
    verdict = True
    for grp in groups:
        n = len(grp)
        A = blocks[np.ix_(grp, range(d), grp, range(d))].reshape(n * d, n * d)
        if s.preconditioning:
            parts = [sign * blocks[i, :, i, :] for i in grp] if s.kind == "DpN" else [sign * A]
            ev = np.array([np.linalg.eigvalsh((P + P.T) / 2) for P in parts])
            if precondition_failed or ev.min() <= 1e-9 * np.abs(ev).max():
                verdict = None  # the Hessian is changed, as C18 states
                continue
        rows = [(a, k) for a, i in enumerate(grp) for k in range(n_c) if act[i, k]]
        A = A.copy()
        B = np.zeros((len(rows), n * d))
        for r, (a, k) in enumerate(rows):
            i = grp[a]
            A[a * d : (a + 1) * d, a * d : (a + 1) * d] += dual[i, k] * ddC[i, k]
            B[r, a * d : (a + 1) * d] = dC[i, k]
        K = np.block([[A, B.T], [B, np.zeros((len(rows), len(rows)))]]) if rows else A
        b = np.r_[R[grp, :d].ravel(), [R[grp[a], d + k] for a, k in rows]]
        K, b, kept, share = reduce(K, b)
        if len(b) == 0:
            small = np.zeros(0)
            amp, step = 1.0, share.T @ np.zeros(0)
        else:
            U, sv, Vt = np.linalg.svd(K)
            rel = sv / sv[0]
            small = rel < (1e-15 if s.kind == "HVN" else 0)
            if np.any((rel < (1e-4 if s.kind == "HVN" else 1e-7)) & ~small):
                verdict = None
                continue
            if small.any():
                # rounding errors of the model would decide: compare the equations and the null space
                got = np.r_[np.asarray(opt.step)[grp, :d].ravel(), [opt.step[grp[a], d + k] for a, k in rows]]
                if len(kept) < len(got):
                    verdict = None
                    continue
                res = U[:, ~small].T @ (K @ got + b)
                free = np.abs(Vt[small] @ got).max()
                if np.abs(res).max() > 1e-4 * (1 + np.abs(b).max()):
                    return False, f"equations: residual {np.abs(res).max():.3g} of a singular system"
                if free > 1e-4 * (1 + np.abs(got).max()):
                    return False, f"minimum-norm: null space component {free:.3g}"
                continue
            amp = 1 / rel.min()
            step = share.T @ (-Vt.T @ ((U.T @ b) / sv))
        want = np.zeros((n, d + n_c))
        want[:, :d] = step[: n * d].reshape(n, d)
        for r, (a, k) in enumerate(rows):
            want[a, d + k] = step[n * d + r]
        got = np.asarray(opt.step)[grp]
        atol = tol * (1 + np.abs(want).max()) * max(1.0, 1e-4 * amp)
        bad = np.abs(got - want) > atol
        if s.kind == "DpN":  # projected onto the box: components leaving it on its boundary are removed
            x = X[grp, :d]
            leaving = ((np.abs(x - s.p.xl) < 1e-9) & (want[:, :d] < 0)) | ((np.abs(x - s.p.xu) < 1e-9) & (want[:, :d] > 0))
            bad[:, :d] &= ~(leaving & (got[:, :d] == 0))
        if not np.isfinite(got).all() or bad.any():
            return False, f"step: off by {np.abs(got - want).max():.3g} (condition {amp:.3g})"
    return verdict, ""


def reduce(K, b):
    """Leave out zero rows and merge identical rows (of a symmetric system): the minimum-norm solution is zero for the
    former and divided equally among the latter.  -> K, b, kept rows, matrix that distributes the solution"""
    n = len(b)
    groups = []
    for i in range(n):
        if not K[i].any() and b[i] == 0:
            continue
        for g in groups:
            if np.array_equal(K[g[0]], K[i]) and b[g[0]] == b[i]:
                g.append(i)
                break
        else:
            groups.append([i])
    kept = [g[0] for g in groups]
    share = np.zeros((len(groups), n))
    for r, g in enumerate(groups):
        share[r, g] = 1 / len(g)
    return K[np.ix_(kept, kept)], b[kept], kept, share
