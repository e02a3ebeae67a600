"""Reference model of what the line searches decide: the step size is the longest trial that decreases the residual."""

import numpy as np

from . import models
from .core import Violation


def _augment(s, X, grad, T):
    """gradient of the Lagrangian and the active constraints"""
    d = s.n_var
    R = np.zeros_like(X)
    R[:, :d] = grad
    C, act, dC = T["cstr_value"], T["active_indices"], T["cstr_grad"]
    if C.size and np.abs(C + 1e-4).min() < 1e-8:
        return None
    for i in range(len(X)):
        for k in np.nonzero(act[i])[0]:
            R[i, :d] += X[i, d + k] * dC[i, k]
            R[i, d + k] = C[i, k]
    return R


def residual(s, opt, X, ref, gd):
    """of all points of X as one population; None where the model does not apply"""
    T = s.p.truth(X[:, : s.n_var])
    Y, J = T["Y"], T["J"]
    H = np.zeros((len(X), s.n_obj, s.n_var, s.n_var))
    if s.kind == "HVN":
        if not np.all(Y < s.ref_point - 1e-9):
            return None
        D = models.hv_derivatives(Y, s.ref_point)
        if D is None:
            return None
        grad = np.einsum("ij,ijk->ik", np.asarray(D[0]).reshape(Y.shape), J)
    elif s.kind == "DpN":
        if not gd:  # every trial is matched anew
            ref = models.assign(ref, Y)
        grad = (models.gd_derivatives if gd else models.matched_derivatives)(Y, ref, J, H)[0]
    else:
        if s.matching:
            ref = models.assign(ref, Y)
        D = models.mmd_derivatives(Y, ref, opt.indicator.theta, "rbf", opt.indicator.beta if s.matching else None)
        grad = np.einsum("ij,ijk->ik", np.asarray(D[0]).reshape(Y.shape), J)
    return _augment(s, X, grad, T)


def longest(s, X, step, group):
    """the longest step size that the box admits"""
    d = s.n_var
    if s.kind == "MMDNewton" or (s.kind == "HVN" and not s.limit):
        return 1.0
    x, v = X[group, :d], step[group, :d]
    room = np.where(v < 0, x - s.p.xl, s.p.xu - x)
    if s.kind == "DpN":
        room = np.where(room < 1e-10, 0.0, room)
    with np.errstate(all="ignore"):
        t = np.where(v == 0, np.inf, room / np.abs(v)).min()
    return float(min(1.0, t * (0.25 if s.kind == "HVN" else 1.0)))


def check(sim, s, opt, X, where):
    """compare the step size of the iteration that led from X to the current iterate with the model"""
    step = np.asarray(opt.step, dtype=float)
    if s.kind == "Lara" or step.shape != X.shape or not np.all(np.isfinite(step)) or np.abs(step).max() < 1e-6:
        return
    if np.abs(X).max() > 1e6 or np.abs(step).max() > 1e6:
        return
    d, N = s.n_var, len(X)
    if s.kind == "MMDNewton" and np.abs(np.median(step[:, :d])) < 1e-6:
        return  # hardly moves: the full step is taken
    if s.kind != "HVN":
        ref = np.array(opt.ref.reference_set)
        gd = s.kind == "DpN" and (s.type == "gd" or (s.type == "deltap" and opt.GD_value > opt.IGD_value))
        matched = not gd if s.kind == "DpN" else s.matching
        Y = s.p.truth(X[:, :d])["Y"]
        if matched and (s.components > 1 or (N > 1 and np.linalg.norm(Y[:, None] - Y[None], axis=2)[~np.eye(N, dtype=bool)].min() < 1e-6)):
            sim.probe("line-searches-not-comparable")
            return  # who is matched to what is not for this model to say
    else:
        ref = gd = None
    size = np.broadcast_to(np.asarray(opt.step_size, dtype=float).reshape(-1), (N,))
    if s.kind == "HVN":
        groups = layers(s, X)
        if groups is None:
            return
        least = 2.0**-6
    else:
        groups = [[i] for i in range(N)] if s.kind == "DpN" else [list(range(N))]
        least = 0.6**8 if s.kind == "DpN" else 2.0**-6
    for grp in groups:
        part = grp if s.kind == "HVN" else list(range(N))  # what the residual is computed from
        rows = list(range(len(grp))) if s.kind == "HVN" else grp

        def phi(alpha):
            Z = X.copy()
            Z[grp] += alpha * step[grp]
            R = residual(s, opt, Z[part], ref, gd)
            return None if R is None else (np.linalg.norm(R[rows]), R[rows])

        now = phi(0.0)
        if now is None or not np.allclose(now[1], np.asarray(opt.R)[grp], rtol=1e-6, atol=1e-8 * (1 + np.abs(now[1]).max())):
            sim.probe("line-searches-not-comparable")
            continue
        full, alpha = longest(s, X, step, grp), float(size[grp[0]])
        if now[0] < 1e-6 or full < 1e-9 or not np.abs(step[grp]).max() > 0:
            continue
        if np.ptp(size[grp]) > 0 or alpha > full * (1 + 1e-9) + 1e-12:
            raise Violation("line-search", f"{where}: step sizes {size[grp].tolist()}, the longest one is {full}")
        taken = phi(alpha)
        if alpha > full * least * (1 + 1e-6) and taken is not None and taken[0] > now[0] * (1 + 1e-6):
            raise Violation("line-search", f"{where}: step size {alpha} of {full} increases the residual from {now[0]} to {taken[0]}")
        if alpha < full * (1 - 1e-9):
            whole = phi(full)
            if whole is not None and whole[0] < now[0] * (1 - 1e-3):
                raise Violation("line-search", f"{where}: step size {alpha} though {full} decreases the residual from {now[0]} to {whole[0]}")
            sim.probe("line-searches-shortened")
        sim.probe("line-searches-checked")


def layers(s, X):
    """the groups that HVN moves jointly; None if rounding errors would decide"""
    T = s.p.truth(X[:, : s.n_var])
    C, Y = T["cstr_value"], T["Y"]
    if s.p.n_eq and np.abs(np.abs(C[:, : s.p.n_eq]) - 1e-4).min() < 1e-9:
        return None
    feasible = np.all(np.abs(C[:, : s.p.n_eq]) <= 1e-4, axis=1) & np.all(C[:, s.p.n_eq :] < -1e-4, axis=1)
    idx = np.nonzero(feasible)[0]
    if not len(idx):
        return [list(range(len(X)))]
    groups = [list(idx[f]) for f in models.fronts(Y[idx])]
    groups[0] = sorted(groups[0] + list(np.nonzero(~feasible)[0]))
    return groups
