"""C04: Jacobian evaluations are counted exactly, callbacks are never copied."""

import functools
import threading
from copy import copy, deepcopy

import numpy as np

from .. import world
from ..core import Violation
from ..world import CALLBACK_FAULTS, INJECTED, Calls, Problem, Scenario, iterate, kernels

KINDS = sorted(CALLBACK_FAULTS)
KERNELS = ["solve", "spsolve", "cholesky", "lstsq", "assignment", "kmedoids"]
COPYING = ["bound", "batch", "object", "partial"]


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401


class NoCopy:
    """an object with state that no copy can share"""

    def __copy__(self):
        raise Violation("callback-copied", f"{type(self).__name__} was copied")

    def __deepcopy__(self, memo):
        raise Violation("callback-copied", f"{type(self).__name__} was deep-copied")

    def __reduce_ex__(self, protocol):
        raise Violation("callback-copied", f"{type(self).__name__} was pickled")


class User(NoCopy, world.User):
    pass


class BatchUser(NoCopy, world.BatchUser):
    pass


class Callback(NoCopy):
    """a callable object"""

    def __init__(self, user, site):
        self.user, self.site = user, site
        self.lock = threading.Lock()
        self.n_calls = 0

    def __call__(self, x):
        self.n_calls += 1
        return self.user._do(self.site, x)


def _apply(user, site, x):
    return user._do(site, x)


def callbacks(problem, calls, style):
    user = (BatchUser if style == "batch" else User)(problem, calls)
    user.mode = style
    if style == "object":
        return user, {s: Callback(user, s) for s in problem.sites}
    if style == "partial":
        return user, {s: functools.partial(_apply, user, s) for s in problem.sites}
    return user, {s: getattr(user, s) for s in problem.sites}


def run(sim):
    if sim.flip(0.25, "state-mode"):
        return state_history(sim)
    s = Scenario(sim, [("HVN", 3), ("DpN", 4), ("Lara", 1), ("MMDNewton", 1)], max_iters=(0, 5), outside=sim.flip(0.3, "outside"), sampled=True)
    style = sim.pick(COPYING, "style")
    calls = Calls(sim)
    holder = {}

    def given(c, _):
        holder["user"], holder["cb"] = callbacks(s.p, c, style)
        return holder["cb"]

    s.p.callbacks = given
    sim.sample.update(s.describe(), style=style)
    faulty = sim.flip(0.5, "faulty")
    counted, failures, sizes = 0, [], [s.N]
    with kernels(calls, KERNELS):
        opt = s.build(calls)
        count(opt, calls, 0, "after construction")
        if faulty:
            for _ in range(sim.integer(1, 3, "n-faults")):
                at = calls.total + 1 + sim.choose(2 ** (1 + sim.choose(9, "magnitude")), "at")
                calls.plan_total[at] = sim.pick(KINDS, "kind")
        sim.cover(s.key(), style, tuple(sorted(calls.plan_total.items())))
        tolerance, done, use_run = 0, 0, sim.flip(0.3, "use-run")
        while done < s.max_iters:
            N = opt.N
            try:
                if use_run:
                    opt.run()
                    done = s.max_iters
                else:
                    iterate(opt)
                    opt.log()
                    done += 1
            except INJECTED:
                # the evaluations that failed are those of at most one population
                tolerance += max(N, opt.N)
                sim.probe("failed-iteration")
            count(opt, calls, tolerance, f"after iteration {done}")
            if sim.flip(0.2, "copy"):
                copies(sim, opt, calls)
        fns = holder["cb"]
        for name, attr in (("func", "func"), ("jac", "jac")):
            got = getattr(opt.state, attr)
            if got is not fns[name] and got != fns[name]:
                raise Violation("callback-replaced", f"state.{attr} is not the function given")
        if style == "object" and fns["jac"].n_calls != calls.count["jac"]:
            raise Violation("callback-copied", "the counter of the user's object missed calls")
    sim.log("end", opt.state.n_jac_evals, opt.state.X)


def count(opt, calls, tolerance, where):
    actual, reported = calls.count.get("jac", 0), opt.state.n_jac_evals
    if abs(actual - reported) > tolerance:
        raise Violation(
            "jacobian-count" + ("-after-failure" if tolerance else ""),
            f"{type(opt).__name__} {where}: {reported} reported, {actual} evaluated (tolerance {tolerance})",
        )


def copies(sim, opt, calls):
    """copies and slices use the same user objects, and do not change what the optimizer reports"""
    before = opt.state.n_jac_evals
    for state in (deepcopy(opt.state), opt.state[np.arange(opt.N)[:1]], copy(opt.state)):
        for name in ("func", "jac", "h", "g", "h_jac", "g_jac", "h_hess", "g_hess"):
            if getattr(state, name) != getattr(opt.state, name):
                raise Violation("callback-replaced", f"{name} of a copied state")
    if opt.state.n_jac_evals != before:
        raise Violation("count-changed-by-copy", "")


def state_history(sim):
    """every State counts the points at which its own Jacobian evaluations were made"""
    from hvd.base import State

    n_var, n_obj = sim.integer(1, 4, "n_var"), 1 + sim.choose(3, "n_obj")
    p = Problem(sim, n_var, n_obj, sim.choose(3, "n_eq"), sim.choose(3, "n_ieq"))
    calls = Calls(sim)
    style = sim.pick(COPYING, "style")
    _, cb = callbacks(p, calls, style)
    rng = sim.rng("points")

    def points(k):
        return np.c_[p.xl + (p.xu - p.xl) * rng.rand(k, n_var), rng.randn(k, p.n_eq + p.n_ieq)]

    st = State(n_var, p.n_eq, p.n_ieq, cb["func"], cb["jac"], cb.get("h"), cb.get("h_jac"), cb.get("h_hess"),
               cb.get("g"), cb.get("g_jac"), cb.get("g_hess"))
    st.update(points(sim.integer(1, 5, "N")))
    cstr = "h_jac" if p.n_eq else ("g_jac" if p.n_ieq else None)
    live = [[st, calls.count["jac"], calls.count.get(cstr, 0), 0]]
    sim.cover("state", n_var, n_obj, p.n_eq, p.n_ieq, style)
    for _ in range(sim.integer(1, 10, "n-ops")):
        item = live[sim.choose(len(live), "which")]
        state = item[0]
        op = sim.weighted([("update", 3), ("no-gradient", 1), ("update_one", 4), ("copy", 2), ("slice", 2)], "op")
        sim.cover(op)
        before = dict(calls.count)
        if state.J is None and op in ("update_one", "slice"):
            op = "update"
        if op in ("update", "update_one") and sim.flip(0.4, "fail"):
            site = sim.pick(p.sites, "site")
            calls.plan[(site, calls.count.get(site, 0) + sim.choose(state.N, "at"))] = sim.pick(KINDS, "kind")
        size = state.N
        try:
            if op in ("update", "no-gradient"):
                X = points(sim.integer(1, 5, "N"))
                size = len(X)
                state.update(X, compute_gradient=op == "update")
            elif op == "update_one":
                size = 1
                state.update_one(points(1)[0], sim.choose(state.N, "k"))
            elif op == "copy":
                live.append([deepcopy(state), *item[1:]])
            else:
                live.append([state[[sim.choose(state.N, "k")]], *item[1:]])
        except INJECTED:
            item[3] += size
            sim.probe("failed-op")
        calls.plan.clear()
        item[1] += calls.count.get("jac", 0) - before.get("jac", 0)
        item[2] += calls.count.get(cstr, 0) - before.get(cstr, 0)
        for s_, jac, cjac, tol in live:
            if abs(s_.n_jac_evals - jac) > tol:
                raise Violation("jacobian-count", f"State after {op}: {s_.n_jac_evals} reported, {jac} evaluated")
            if cstr and abs(s_.n_cstr_jac_evals - cjac) > tol:
                raise Violation("constraint-jacobian-count", f"State after {op}: {s_.n_cstr_jac_evals} reported, {cjac} evaluated")
        live[:] = live[-5:]
    sim.log("end")
