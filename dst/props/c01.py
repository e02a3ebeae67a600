"""C01: the iterate is never half-updated."""

from copy import deepcopy

import numpy as np

from .. import world
from ..core import Violation
from ..world import CALLBACK_FAULTS, INJECTED, Calls, Problem, Scenario, check_state, iterate, kernels

KINDS = sorted(CALLBACK_FAULTS)


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401


def run(sim):
    if sim.flip(0.35, "state-mode"):
        state_history(sim)
    else:
        optimizer_history(sim)


# ------------------------------------------------------------------------------------------------------
def arm(sim, calls, horizon, n_max):
    for _ in range(sim.integer(0, n_max, "n-faults")):
        at = calls.total + 1 + sim.choose(2 ** (1 + sim.choose(horizon, "magnitude")), "at")
        calls.plan_total[at] = sim.pick(KINDS, "kind")


def optimizer_history(sim):
    s = Scenario(sim, [("HVN", 3), ("DpN", 4), ("Lara", 2), ("MMDNewton", 0.8)], outside=sim.flip(0.3, "outside"), sampled=True)
    hess = s.kind != "MMDNewton"
    calls = Calls(sim)
    holder = {}
    n = [0]

    def observe(site, x):
        opt = holder.get("opt")
        n[0] += 1
        if opt is not None and n[0] % 3 == 0:
            check_state(s.p, opt.state, f"inside callback {site}", hess=hess)

    calls.observers.append(observe)
    sim.cover(s.key())
    sim.sample.update(s.describe())
    names = ["solve", "spsolve", "cholesky", "lstsq", "assignment", "kmedoids"]
    with kernels(calls, names):
        arm(sim, calls, 3, 1)
        try:
            opt = s.build(calls)
        except INJECTED:
            sim.probe("failed-construction")
            opt = s.build(calls)
        check_state(s.p, opt.state, "after construction", hess=hess)
        holder["opt"] = opt
        arm(sim, calls, 8, 3)
        done = 0
        for _ in range(s.max_iters + 4):
            before = deepcopy(opt.state)
            try:
                iterate(opt)
            except INJECTED as e:
                sim.cover("failed", calls.fired[-1:], type(e).__name__)
                sim.probe("failed-iteration")
                check_state(s.p, opt.state, "after a failed iteration", hess=hess)
                unchanged(before, opt.state, s)
                continue
            check_state(s.p, opt.state, "after an iteration", hess=hess)
            opt.log()
            done += 1
            if done == s.max_iters:
                break
    sim.log("end", np.asarray(opt.state.X))


def unchanged(before, after, s):
    """`after` holds the rows of `before`, except for duplicates that were dropped"""
    A, B = np.asarray(after.X), np.asarray(before.X)
    rows = [np.nonzero((B == a).all(axis=1) | (np.isnan(B) & np.isnan(a)).any(axis=1))[0] for a in A]
    if any(len(r) == 0 for r in rows):
        raise Violation("failed-update-changed-iterate", f"{s.kind}: a row of X is new after a failed iteration")
    if len(A) != len(B):
        primal = B[:, : s.n_var]
        eps = 1e-3 * np.max(s.p.xu - s.p.xl) + 1e-6
        for b in primal:
            if np.linalg.norm(A[:, : s.n_var] - b, axis=1).min() > eps:
                raise Violation("failed-update-lost-point", f"{s.kind}: a point that is no duplicate disappeared")
        if s.kind not in ("HVN", "Lara"):
            raise Violation("failed-update-lost-point", s.kind)
    elif not np.array_equal(A, B, equal_nan=True):
        raise Violation("failed-update-changed-iterate", f"{s.kind}: X changed by a failed iteration")


# ------------------------------------------------------------------------------------------------------
def state_history(sim):
    """a random history on one State, its copies and slices, against a model that knows X only"""
    from hvd.base import State

    n_var, n_obj = sim.integer(1, 4, "n_var"), 1 + sim.choose(3, "n_obj")
    n_eq, n_ieq = sim.choose(3, "n_eq"), sim.choose(3, "n_ieq")
    p = Problem(sim, n_var, n_obj, n_eq, n_ieq)
    calls = Calls(sim)
    style = sim.pick(world.STYLES, "style")
    cb = p.callbacks(calls, style)
    N = sim.integer(1, 5, "N")
    rng = sim.rng("points")
    sim.cover("state", n_var, n_obj, n_eq, n_ieq, N, style)
    sim.sample.update(mode="state history", n_var=n_var, n_obj=n_obj, n_eq=n_eq, n_ieq=n_ieq, N=N, style=style)

    def points(k):
        X = np.c_[p.xl + (p.xu - p.xl) * rng.rand(k, n_var), rng.randn(k, n_eq + n_ieq)]
        if n_eq + n_ieq and sim.flip(0.25, "at-a-boundary"):
            i, j = rng.randint(k), sim.choose(n_eq + n_ieq, "constraint")
            target = sim.pick([-5e-5, 5e-5, -2e-4, 2e-4, -1.1e-4, -0.9e-4], "value")
            for _ in range(8):  # move to where the constraint has this value
                T = p.truth(X[i : i + 1, :n_var])
                g = T["cstr_grad"][0, j]
                X[i, :n_var] -= (T["cstr_value"][0, j] - target) * g / max(g @ g, 1e-12)
        return X

    def new():
        return State(
            n_var, n_eq, n_ieq, cb["func"], cb["jac"], cb.get("h"), cb.get("h_jac"), cb.get("h_hess"), cb.get("g"),
            cb.get("g_jac"), cb.get("g_hess"),
        )

    st = new()
    X = points(N)
    st.update(X)
    live = [(st, X.copy())]  # every state that exists, with the X it must have
    caller = [(X, X.copy())]
    ops = sim.integer(1, 12, "n-ops")

    def check(where):
        for state, want in live:
            if np.asarray(state.X).shape != want.shape or not np.array_equal(state.X, want):
                raise Violation("state-X", f"{where}: X is not what was last stored")
            check_state(p, state, where)
            if state.N != len(want):
                raise Violation("state-N", where)
            if not np.array_equal(state.primal, want[:, :n_var]) or not np.array_equal(state.dual, want[:, n_var:]):
                raise Violation("state-primal-dual", where)
            feasible(p, state, want, where)
        for given, copy in caller:
            if not np.array_equal(given, copy):
                raise Violation("caller-array-modified", where)

    check("after the first update")
    for _ in range(ops):
        i = sim.choose(len(live), "which")
        state, want = live[i]
        op = sim.weighted([("update", 3), ("update_one", 4), ("copy", 2), ("slice", 2), ("mutate-argument", 1)], "op")
        sim.log(op, i)
        sim.cover(op)
        if op in ("update", "update_one") and sim.flip(0.5, "fail"):
            sites = p.sites
            calls.plan[(site := sim.pick(sites, "site"), calls.count.get(site, 0) + sim.choose(len(want), "at"))] = sim.pick(KINDS, "kind")
        try:
            if op == "update":
                X = points(sim.integer(1, 5, "N"))
                if sim.flip(0.3, "feasible"):
                    X[:, :n_var] = p.mid
                given = X.copy()
                caller.append((given, X))
                state.update(given)
                live[i] = (state, X.copy())
            elif op == "update_one":
                k = sim.choose(len(want), "k")
                x = points(1)[0]
                given = x.copy()
                caller.append((given, x))
                state.update_one(given, k)
                new_X = want.copy()
                new_X[k] = x
                live[i] = (state, new_X)
            elif op == "copy":
                live.append((deepcopy(state), want.copy()))
            elif op == "slice":
                how = sim.pick(["list", "mask", "range", "array"], "how")
                idx = np.sort(rng.permutation(len(want))[: sim.integer(1, len(want), "size")])
                arg = {
                    "list": list(map(int, idx)), "mask": np.isin(np.arange(len(want)), idx),
                    "range": slice(int(idx[0]), int(idx[-1]) + 1), "array": idx,
                }[how]
                live.append((state[arg], want[arg].copy()))
            else:
                given, copy = sim.pick(caller, "argument")
                given += 1.0
                copy[...] = given
        except INJECTED:
            sim.probe("failed-op")
        calls.plan.clear()
        check(f"after {op}")
        live[:] = live[-6:]
    sim.log("end")


def feasible(p, state, X, where):
    T = p.truth(X[:, : p.n_var])
    H, G = T["cstr_value"][:, : p.n_eq], T["cstr_value"][:, p.n_eq :]
    margin = np.r_[np.abs(np.abs(H) - 1e-4).ravel(), np.abs(G + 1e-4).ravel(), 1.0].min()
    if margin < 1e-9:
        return
    want = np.all(np.abs(H) <= 1e-4, axis=1) & np.all(G < -1e-4, axis=1)
    got = np.asarray(state.is_feasible())
    if not np.array_equal(got, want):
        raise Violation("state-feasibility", f"{where}: {got} instead of {want}")
    if not np.array_equal(np.asarray(state.H), H) and not np.allclose(state.H, H):
        raise Violation("state-H", where)
    if not np.array_equal(np.asarray(state.G), G) and not np.allclose(state.G, G):
        raise Violation("state-G", where)
