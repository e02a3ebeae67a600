"""Independent reference models: small, slow, written from the definitions."""

import numpy as np
from scipy.optimize import linear_sum_assignment


def hv(Y, ref):
    """volume of the region dominated by Y below ref, by a coordinate grid"""
    Y = np.asarray(Y, dtype=float)
    Y = Y[np.all(Y < ref, axis=1)]
    if len(Y) == 0:
        return 0.0
    d = Y.shape[1]
    cuts = [np.unique(np.r_[Y[:, k], ref[k]]) for k in range(d)]
    shape = tuple(len(c) - 1 for c in cuts)
    covered = np.zeros(shape, dtype=bool)
    for y in Y:
        covered[tuple(slice(int(np.searchsorted(cuts[k], y[k])), None) for k in range(d))] = True
    volume = np.ones(shape)
    for k in range(d):
        s = [1] * d
        s[k] = -1
        volume = volume * np.diff(cuts[k]).reshape(s)
    return float(volume[covered].sum())


def hv_gap(Y, ref):
    """smallest difference between coordinates that matter for the combinatorics of the hypervolume"""
    Z = np.vstack([Y, ref])
    gap = np.inf
    for k in range(Z.shape[1]):
        z = np.sort(Z[:, k])
        gap = min(gap, np.min(np.diff(z))) if len(z) > 1 else gap
    return gap


def hv_derivatives(Y, ref):
    """gradient (N, m) and Hessian (N*m, N*m) w.r.t. the objective points; exact: the hypervolume is linear in each
    coordinate as long as the order of the coordinates does not change. None if two coordinates are too close."""
    Y = np.asarray(Y, dtype=float)
    N, m = Y.shape
    gap = hv_gap(Y, ref)
    scale = max(1e-12, float(np.max(np.abs(np.vstack([Y, ref])))))
    h = min(0.2 * gap, 0.05)
    if h < 2e-4 * scale:
        return None
    y0 = Y.ravel()
    n = N * m

    def at(*moves):
        y = y0.copy()
        for i, s in moves:
            y[i] += s * h
        return hv(y.reshape(N, m), ref)

    base = at()
    plus = [at((i, 1)) for i in range(n)]
    G = np.array([(plus[i] - base) / h for i in range(n)])
    H = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            if i % m == j % m and i // m == j // m:
                continue
            H[i, j] = H[j, i] = (at((i, 1), (j, 1)) - plus[i] - plus[j] + base) / h**2
    return G.reshape(N, m), H


def dominates(a, b):
    return np.all(a <= b) and np.any(a < b)


def fronts(Y):
    left = list(range(len(Y)))
    out = []
    while left:
        f = [i for i in left if not any(dominates(Y[j], Y[i]) for j in left)]
        out.append(np.array(f))
        left = [i for i in left if i not in f]
    return out


def assign(R, Y):
    """rows of R matched to the rows of Y at minimal total distance"""
    D = np.linalg.norm(Y[:, None] - R[None], axis=2)
    return R[linear_sum_assignment(D)[1]]


def gd(Y, R, p=2):
    D = np.linalg.norm(Y[:, None] - R[None], axis=2).min(axis=1)
    return np.mean(D**p) ** (1 / p)


def igd(Y, R, p=2):
    return gd(R, Y, p)


def chain(J, H, dY, blocks):
    """decision-space gradient (N, d) and Hessian (N, d, N, d) from objective-space derivatives; blocks: (N, m, N, m)"""
    g = np.einsum("im,imd->id", dY, J)
    HX = np.einsum("imd,imjn,jne->idje", J, blocks, J)
    for i in range(len(J)):
        HX[i, :, i, :] += np.einsum("m,mde->de", dY[i], H[i])
    return g, HX


def gd_derivatives(Y, R, J, H):
    """of GD^2 = mean squared distance to the nearest reference point, per point"""
    i = np.argmin(np.linalg.norm(Y[:, None] - R[None], axis=2), axis=1)
    diff = Y - R[i]
    c = 2 / len(Y)
    return c * np.einsum("im,imd->id", diff, J), c * (np.einsum("imd,ime->ide", J, J) + np.einsum("im,imde->ide", diff, H))


def matched_derivatives(Y, R, J, H):
    """of the sum of squared distances to matched reference points, per point"""
    diff = Y - R
    return 2 * np.einsum("im,imd->id", diff, J), 2 * (np.einsum("imd,ime->ide", J, J) + np.einsum("im,imde->ide", diff, H))


def igd_derivatives(Y, R, J, H):
    """of IGD^2 = mean over the reference points of the squared distance to the nearest point, per point"""
    near = np.argmin(np.linalg.norm(R[:, None] - Y[None], axis=2), axis=1)
    g, h = np.zeros(J.shape[::2]), np.zeros((len(Y), J.shape[2], J.shape[2]))
    for r, i in zip(R, near):
        diff = Y[i] - r
        g[i] += 2 / len(R) * diff @ J[i]
        h[i] += 2 / len(R) * (J[i].T @ J[i] + np.einsum("m,mde->de", diff, H[i]))
    return g, h


KERNELS = {
    "rbf": lambda d, t: np.exp(-t * np.sum(d**2)),
    "rational_quadratic": lambda d, t: (np.sum(d**2) * t / 2 + 1) ** (-1.0),
    "laplace": lambda d, t: np.exp(-t * np.sum(np.abs(d))),
}


def kernel_derivatives(name, d, t):
    """value, gradient and Hessian w.r.t. d"""
    m = len(d)
    if name == "rbf":
        k = np.exp(-t * d @ d)
        return k, -2 * t * d * k, (4 * t * t * np.outer(d, d) - 2 * t * np.eye(m)) * k
    if name == "rational_quadratic":
        s = d @ d * t / 2 + 1
        return 1 / s, -t * d / s**2, -t * np.eye(m) / s**2 + 2 * t * t * np.outer(d, d) / s**3
    k = np.exp(-t * np.abs(d).sum())
    g = -t * np.sign(d)
    return k, g * k, np.outer(g, g) * k


def mmd(Y, R, theta=1.0, kernel="rbf", beta=None):
    """beta None: MMD^2 of Y and R; otherwise R is matched to Y: beta * mean k(Y, Y) + mean(2 - 2 k(y_i, r_i))"""
    k = lambda A, B: np.array([[KERNELS[kernel](a - b, theta) for b in B] for a in A])
    if beta is None:
        return k(R, R).mean() + k(Y, Y).mean() - 2 * k(R, Y).mean()
    return beta * k(Y, Y).mean() + np.mean([2 - 2 * KERNELS[kernel](y - r, theta) for y, r in zip(Y, R)])


def mmd_derivatives(Y, R, theta=1.0, kernel="rbf", beta=None):
    """gradient (N, m) and Hessian (N, m, N, m) w.r.t. the objective points"""
    N, m = Y.shape
    G, H = np.zeros((N, m)), np.zeros((N, m, N, m))
    b = 1.0 if beta is None else beta
    for i in range(N):
        for j in range(N):
            if i != j:
                _, g, h = kernel_derivatives(kernel, Y[i] - Y[j], theta)
                G[i] += 2 * b * g / N**2
                H[i, :, i, :] += 2 * b * h / N**2
                H[i, :, j, :] -= 2 * b * h / N**2
        pairs = R if beta is None else R[i : i + 1]
        c = 2 / (N * len(R)) if beta is None else 2 / N
        for r in pairs:
            _, g, h = kernel_derivatives(kernel, Y[i] - r, theta)
            G[i] -= c * g
            H[i, :, i, :] -= c * h
    return G, H
