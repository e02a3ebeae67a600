"""C07: box-constrained optimizers stay in the box and do not freeze on its boundary."""

from copy import deepcopy

import numpy as np

from .. import world
from ..core import Skip, Violation
from ..world import INJECTED, Calls, Scenario, iterate, kernels

SOLVERS = ["solve", "spsolve", "lstsq"]
GARBAGE = ["huge", "large", "tiny", "zero", "axis", "signs", "sparse", "extreme"]


def setup():
    world.import_hvd()


def spoil(kind, seed, out):
    """what a solver that went wrong returns: finite numbers of the right shape"""
    rng = np.random.RandomState(seed)
    x = np.array(out, dtype=float)
    flat = x.reshape(-1)
    flat[~np.isfinite(flat)] = 0.0
    if kind == "huge":
        flat *= 1e6
    elif kind == "extreme":
        flat[:] = rng.uniform(-1, 1, flat.shape) * 1e100
    elif kind == "large":
        flat[:] = rng.uniform(-10, 10, flat.shape)
    elif kind == "tiny":
        flat *= 1e-14
    elif kind == "zero":
        flat[:] = 0
    elif kind == "axis":
        flat[:] = 0
        flat[rng.randint(len(flat))] = rng.choice([-1.0, 1.0])
    elif kind == "signs":
        flat[:] = rng.choice([-1.0, 0.0, 1.0], flat.shape)
    elif kind == "sparse":
        flat[rng.rand(len(flat)) < 0.5] = 0
    return x


def run(sim):
    s = Scenario(sim, [("DpN", 5), ("Lara", 2), ("HVN", 2)], constraints=sim.flip(0.3, "constrained"), max_iters=(2, 8), outside=sim.flip(0.7, "outside"), sampled=True, n_var_max=4)
    s.limit = True
    s.style = "closure"  # the optimizer is copied to see its step in a box that does not matter
    p = s.p
    rng = sim.rng("start")
    where = sim.choose(4, "start")
    if where == 1:  # anywhere, also outside of the box
        s.X0 = p.xl + (p.xu - p.xl) * rng.uniform(-1, 2, s.X0.shape)
    elif where == 2:  # corners
        s.X0 = np.where(rng.rand(*s.X0.shape) < 0.5, p.xl, p.xu)
    elif where == 3:  # off the boundary by rounding errors
        mask = rng.rand(*s.X0.shape) < 0.6
        near = np.where(rng.rand(*s.X0.shape) < 0.5, p.xl, p.xu)
        s.X0 = np.where(mask, near + rng.choice([0, 1e-17, 1e-16, -1e-16, 3e-16, 1e-12], s.X0.shape), s.X0)
    width = p.xu - p.xl
    tol = 1e-9 * (1 + width)
    if s.kind == "HVN" and where:
        f = np.array([p.f(x) for x in np.clip(s.X0, p.xl, p.xu)])
        s.ref_point = np.maximum(s.ref_point, f.max(axis=0) * 2 + 5)
    spoiled = {}
    if s.kind != "Lara" and sim.flip(0.5, "bad-solver"):
        for _ in range(1 + sim.choose(4, "n-bad")):
            spoiled[sim.choose(s.N * 6 if s.kind == "DpN" else 6, "bad-at")] = sim.pick(GARBAGE, "garbage")
    sim.sample.update(s.describe(), start=where, spoiled=len(spoiled))
    box = {"check": False, "solves": 0, "twin": False}

    def observe(site, x):
        if x is not None and box["check"] and not box["twin"]:
            x = np.asarray(x, dtype=float)
            if not (np.all(x >= p.xl - tol) and np.all(x <= p.xu + tol)):
                raise Violation("evaluated-outside", f"{s.kind}: {site} at {x}, box {p.xl} {p.xu}")
            sim.probe("evaluations-in-box")

    def hook(site, original, args, kwargs, kind):
        if kind is not None:
            return NotImplemented
        out = original(*args, **kwargs)
        bad = spoiled.get(box["solves"])
        box["solves"] += 1
        if bad is None:
            return out
        if not box["twin"]:
            sim.fault(f"{site}:returns-{bad}")
        if isinstance(out, tuple):
            return (spoil(bad, box["solves"], out[0]), *out[1:])
        return spoil(bad, box["solves"], out)

    calls = Calls(sim)
    calls.observers.append(observe)
    box["check"] = True
    for _ in range(sim.integer(0, 2, "n-faults")):
        site = sim.pick(["func", "jac", "hess", "solve", "spsolve"], "site")
        kind = sim.pick(["error", "interrupt"] if site in p.sites else ["linalg", "illcond", "interrupt"], "kind")
        calls.plan[(site, s.N * 2 + sim.choose(12 * s.N, "at"))] = kind
    sim.cover(s.key(), where, tuple(sorted(spoiled.items())), tuple(sorted(calls.plan)))
    with kernels(calls, SOLVERS, hook):
        opt = s.build(calls)
        inside(opt, p, tol, "after construction")
        for it in range(s.max_iters):
            for _ in range(5):
                X = np.array(opt.state.X)
                at = box["solves"]
                raw = None
                if s.kind != "HVN":
                    raw = unboxed(opt, calls, box, s)
                    box["solves"] = at
                try:
                    iterate(opt)
                except INJECTED:
                    inside(opt, p, tol, "after a failed iteration")
                    continue
                break
            opt.log()
            inside(opt, p, tol, f"iteration {it}")
            if len(opt.state.X) != len(X):
                raise Skip()  # a duplicate was dropped
            if raw is not None and raw.shape == np.asarray(opt.step).shape:
                check_freedom(sim, s, opt, X, raw)
    sim.log("end", opt.state.X)


def inside(opt, p, tol, where):
    X = np.asarray(opt.state.primal)
    if not (np.all(X >= p.xl - tol) and np.all(X <= p.xu + tol)):
        raise Violation("iterate-outside", f"{type(opt).__name__} {where}: by {max((p.xl - X).max(), (X - p.xu).max()):.3g}")


def unboxed(opt, calls, box, s):
    """the step the optimizer would make at the same point in a box that does not matter, None if it fails"""
    plan, count, total = calls.plan, dict(calls.count), calls.total
    fired = len(calls.fired)
    twin = deepcopy(opt)
    twin.xl, twin.xu = s.p.xl - 1e3, s.p.xu + 1e3
    # the same kernels fail as will in the iteration proper; callbacks do not
    calls.plan = {k: v for k, v in plan.items() if k[0] in SOLVERS and v != "interrupt"}
    box["twin"] = True
    faults = calls.sim.faults.copy()
    try:
        iterate(twin)
        return np.array(twin.step)
    finally:
        box["twin"] = False
        calls.plan, calls.count, calls.total = plan, count, total
        del calls.fired[fired:]
        calls.sim.faults = faults


def check_freedom(sim, s, opt, X, raw):
    p, d = s.p, s.n_var
    step, raw, x = np.array(opt.step)[:, :d], raw[:, :d], X[:, :d]
    size = np.broadcast_to(np.asarray(opt.step_size, dtype=float).reshape(-1, 1), (len(X), 1)).ravel()
    lo, hi = np.abs(x - p.xl), np.abs(p.xu - x)
    if not np.isfinite(raw).all() or np.any((np.minimum(lo, hi) > 1e-11) & (np.minimum(lo, hi) < 1e-8)):
        return
    leaving = ((lo < 1e-8) & (raw < 0)) | ((hi < 1e-8) & (raw > 0))
    on = np.any((lo < 1e-8) | (hi < 1e-8), axis=1)
    sim.probe("points-on-boundary", int(on.sum()))
    scale = 1e-9 * np.abs(raw).max(axis=1, keepdims=True) + 1e-300
    lost = ~leaving & (np.abs(step - raw) > scale)
    if lost.any():
        i, k = np.argwhere(lost)[0]
        raise Violation("component-removed", f"{s.kind}: point {i}: step {raw[i]} became {step[i]} at {x[i]}, box {p.xl} {p.xu}")
    want = np.where(leaving, 0, raw)
    with np.errstate(all="ignore"):
        room = np.where(want < 0, lo / -want, np.where(want > 0, hi / want, np.inf)).min(axis=1)
    room = np.minimum(1, room)
    if s.kind == "Lara":
        room[:] = room.min()
    moving = np.abs(want).max(axis=1) > 1e-7
    stuck = moving & (size < 1e-6 * room)
    if stuck.any():
        i = int(np.argmax(stuck))
        raise Violation("frozen", f"{s.kind}: point {i} at {x[i]} with step {want[i]} has step size {size[i]:.3g}, room for {room[i]:.3g}")
    if (moving & on).any():
        sim.probe("moved-on-boundary", int((moving & on).sum()))
    # a step of full length is not lost on the way
    moved = np.array(opt.state.X)[:, :d] - x
    free = moving & (np.abs(want * room[:, None]).max(axis=1) > 1e-6)
    if np.any(free & (np.abs(moved).max(axis=1) == 0)):
        i = int(np.argmax(free & (np.abs(moved).max(axis=1) == 0)))
        raise Violation("frozen", f"{s.kind}: point {i} at {x[i]} with step {want[i]} did not move")
