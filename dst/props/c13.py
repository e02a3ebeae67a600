"""C13: bootstrapping the reference set keeps optimizer, reference and files consistent."""

import os
from contextlib import contextmanager

import numpy as np

from .. import world
from ..core import SimInterrupt, Skip, Violation
from ..disk import Disk
from ..world import CALLBACK_FAULTS, INJECTED, Calls, Problem, check_state

KINDS = sorted(CALLBACK_FAULTS)
# every one of these is an error the writer is told about
LOUD = {
    "open": ["EACCES", "ENOSPC", "EMFILE", "EIO", "interrupt"], "opendir": ["EACCES"], "write": ["ENOSPC", "EIO", "interrupt"],
    "fsync": ["EIO"], "fsyncdir": ["EIO"], "rename": ["EACCES"], "unlink": ["EACCES"], "close": ["EIO"], "read": ["EIO"],
}
BETA = 0.05


def setup():
    world.import_hvd()
    import hvd.bootstrap  # noqa: F401
    import hvd.mmd_newton  # noqa: F401


class Scaled(Problem):
    """objective values small enough for the clusters of the reference set generator"""

    scale = 0.25

    def f(self, x):
        return self.scale * super().f(x)

    def jac(self, x):
        return self.scale * super().jac(x)

    def hess(self, x):
        return self.scale * super().hess(x)


class MOP:
    def __init__(self, p):
        self.p = p
        self.n_obj = p.n_obj

    def get_pareto_front(self, *args, **kwargs):
        W = np.random.RandomState(3).dirichlet(np.ones(self.p.n_obj), 20)
        return np.array([self.p.f(w @ self.p.c) for w in W])


@contextmanager
def directory(path):
    before = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(before)


def direction(Y):
    """the normal of the hyperplane through the points with the best values, pointing down"""
    Z = Y[Y.argmin(axis=0)]
    M = Z[1:] - Z[0]
    n = np.linalg.svd(M)[2][-1]
    return -np.abs(n) / np.linalg.norm(n), np.linalg.matrix_rank(M, tol=1e-9) == len(M)


def read(path):
    return np.loadtxt(path, delimiter=",", ndmin=2)


def run(sim):
    from hvd import bootstrap
    from hvd.mmd_newton import MMDNewton
    from hvd.reference_set import ReferenceSet
    from hvd.rsg import RSG

    n_obj = sim.pick([2, 2, 3], "n_obj")
    with_rsg = n_obj == 2 and sim.flip(0.5, "with-rsg")
    n_var = sim.integer(1, 3, "n_var") + (n_obj - 2)
    n_eq = sim.choose(2, "n_eq") if n_var > n_obj - 1 else 0
    p = Scaled(sim, n_var, n_obj, n_eq, 0)
    rng = sim.rng("data")
    N = sim.integer(8, 14, "N") if with_rsg else sim.integer(4, 8, "N")
    matching = not sim.flip(0.35, "no-matching")
    max_iters = sim.integer(1, 7, "max_iters")
    interval = sim.integer(1, 4, "interval")
    last_n = sim.pick([3, 2, 5], "last_n")
    save_reference_set, save_population = sim.flip(0.6, "save-ref"), sim.flip(0.6, "save-pop")
    calls = Calls(sim)
    calls.last = None
    cb = p.callbacks(calls, sim.pick(world.STYLES, "style"))
    W = rng.dirichlet(np.ones(n_obj), N)
    X0 = W @ p.c + rng.uniform(-0.1, 0.1, (N, n_var))
    R = np.array([p.f(w @ p.c) for w in rng.dirichlet(np.ones(n_obj), N + n_obj + 2)]) - 0.05
    if with_rsg and sim.flip(0.4, "outliers"):
        # a cluster of two points close to each other and far from all others, already on their targets
        k, t = sim.choose(2, "end"), np.append([0.0, rng.uniform(1e-4, 2e-2)], np.sort(rng.uniform(0.4, 1, N - 2)))
        W = np.column_stack([t, 1 - t])[:, ::1 if k else -1]
        X0 = W @ p.c
        R = np.array([p.f(x) for x in X0]) - 0.02
    sim.sample.update(n_obj=n_obj, n_var=n_var, N=N, rsg=with_rsg, matching=matching, max_iters=max_iters, interval=interval)
    sim.cover(n_obj, n_var, n_eq, N, with_rsg, matching, max_iters, interval, last_n, save_reference_set, save_population)

    log = []  # what the optimizer's log sees: once per iteration

    class Watch:
        def compute(self, X=None, Y=None):
            log.append((opt.state.primal.copy(), Y.copy(), opt.ref, opt.indicator.ref, np.array(opt.ref.reference_set), np.array(opt.ref.eta[0])))
            return 0.0

    cstr = dict(h=cb["h"], h_jac=cb["h_jac"]) if n_eq else {}
    ref0 = ReferenceSet(ref=R)
    opt = MMDNewton(
        n_var=n_var, n_obj=n_obj, ref=ref0, func=cb["func"], jac=cb["jac"], hessian=cb["hess"], xl=p.xl, xu=p.xu, N=N, X0=X0,
        max_iters=max_iters, matching=matching, metrics=dict(watch=Watch()), verbose=False, preconditioning=sim.flip(0.3, "precondition"), **cstr,
    )
    disk = Disk(sim, interrupt=SimInterrupt)
    disk.faults = LOUD
    problem = MOP(p)
    names = set()
    try:
        with directory(disk.root), disk.mounted():
            for call in range(3):
                for _ in range(sim.integer(0, 2, "n-faults") if call < 2 else 0):
                    if sim.flip(0.5, "disk") and (save_population or save_reference_set):
                        disk.plan[disk.ops + sim.choose(6 * max_iters, "at")] = sim.choose(60, "kind")
                    else:
                        site = sim.pick(["func", "jac", "hess"], "site")
                        calls.plan[(site, calls.count.get(site, 0) + sim.choose(3 * N * max_iters, "at"))] = sim.pick(KINDS, "kind")
                log.clear()
                start = (opt.state.primal.copy(), opt.state.Y.copy())
                first_ref, done, fired, fired_disk = opt.ref, opt.iter_count, len(calls.fired), len(disk.fired)
                first_points, first_size = np.array(opt.ref.reference_set), len(R)
                error, out = None, None
                try:
                    out = bootstrap.bootstrap_reference_set(
                        opt, problem, interval=interval, with_rsg=with_rsg, plot=False, last_n=last_n,
                        save_reference_set=save_reference_set, save_population=save_population,
                    )
                except INJECTED as e:
                    error = e
                except OSError as e:
                    if "injected" not in str(e):
                        raise
                    error = e
                except (ValueError, AssertionError, np.linalg.LinAlgError) as e:
                    refused(sim, e, log, start, with_rsg, N, n_obj, max_iters, interval, RSG)
                    raise Skip() from e
                failed = len(calls.fired) > fired or len(disk.fired) > fired_disk
                where = f"call {call}"
                if error is None and failed:
                    raise Violation("failure-swallowed", f"{where}: {calls.fired[fired:]} {disk.fired[fired_disk:]}")
                if error is not None and not failed:
                    raise Violation("failure-late", repr(error))
                if len(calls.fired) > fired and error is not calls.last and not len(disk.fired) > fired_disk:
                    raise Violation("failure-changed", repr(error))
                # -- at any time
                if opt.ref is not opt.indicator.ref:
                    raise Violation("two-reference-sets", where)
                quiet(calls, lambda: check_state(p, opt.state, where, hess=False))
                trajectory = [start] + [(x, y) for x, y, *_ in log]
                n_done = len(log)
                if error is None and n_done != max_iters or opt.iter_count - done not in ((n_done,) if error is None else (n_done, n_done + 1)):
                    raise Violation("iterations", f"{where}: {n_done} logged, {opt.iter_count - done} counted, {max_iters} requested")
                # -- the reference sets in force
                current, installed, history = first_ref, None, []
                for i, (x, y, r, r_ind, points, eta) in enumerate(log):
                    if r is not r_ind:
                        raise Violation("two-reference-sets", f"{where}, iteration {i}")
                    due = i > 0 and i % interval == 0
                    if due != (r is not current):
                        raise Violation("bootstrap-time", f"{where}, iteration {i}: {'kept' if due else 'replaced'}, interval {interval}")
                    if due:
                        current = r
                        Y = trajectory[i][1]
                        Y = (1 - BETA) * Y + BETA * Y.mean(axis=1, keepdims=True)
                        installed = RSG(Py=Y, Nf=N) if with_rsg else Y
                        if with_rsg and negligible(Y, N):
                            sim.probe("negligible-clusters")
                        history.append(installed)
                        d, regular = direction(installed)
                        if regular and not np.allclose(eta, d, atol=1e-6):
                            raise Violation("direction", f"{where}, iteration {i}: {eta} instead of {d}")
                    if installed is not None:
                        check_points(points, installed, eta, f"{where}, iteration {i}")
                        sim.probe("references-checked")
                # -- files
                i_max = max_iters if error is None else n_done  # of the iteration that failed nothing is known
                for i in range(i_max):
                    if save_population:
                        for c, a in zip("XY", trajectory[i]):
                            check_file(disk, f"{c}_MMDNewton_MOP_iteration{i}.csv", a, where)
                            names.add(f"{c}_MMDNewton_MOP_iteration{i}.csv")
                    if save_reference_set and i > 0 and i % interval == 0:
                        check_file(disk, f"ref_MMDNewton-iteration{i}.csv", history[i // interval - 1], where)
                        sim.probe("files-checked")
                if error is not None:
                    sim.probe("failed-calls")
                    continue
                # -- result
                Xb, Yb, ref, ref_list = out
                if ref is not opt.ref:
                    raise Violation("returned-reference", where)
                if len(ref_list) != len(history) or any(not np.allclose(a, b, rtol=1e-12, atol=1e-12) for a, b in zip(ref_list, history)):
                    raise Violation("returned-history", f"{where}: {len(ref_list)} of {len(history)} sets")
                if len(Xb) != len(Yb) or not 0 < len(Xb) <= N:
                    raise Violation("returned-points", f"{where}: {Xb.shape} {Yb.shape}")
                last = trajectory[-(last_n + 1):]
                for x, y in zip(Xb, Yb):
                    if not np.array_equal(y, p.f(x)) and not np.allclose(y, p.f(x), rtol=1e-12):
                        raise Violation("image-of-another-point", f"{where}: {y} instead of {p.f(x)}")
                    if not any(np.any(np.all(a == x, axis=1) & np.all(b == y, axis=1)) for a, b in last):
                        raise Violation("not-on-the-trajectory", f"{where}: {x}")
                sim.probe("results-checked")
                sim.probe("bootstraps", len(history))
                sim.absorb(Xb)
                break
            left = set(os.listdir(disk.root))
            if not (save_population or save_reference_set) and left:
                raise Violation("unwanted-files", str(sorted(left)))
    finally:
        disk.remove()
    sim.log("end")


def negligible(Y, N):
    """is there a cluster too short for a reference point of its own?"""
    from hvd.rsg import ComponentDetection

    C, n = ComponentDetection(Py=Y, eps=0.08, minpts=2)
    length = np.array([np.linalg.norm(np.diff(c[np.argsort(c[:, 0])], axis=0), axis=1).sum() for c in C])
    return n > 1 and np.any(N * length < 0.5 * length.sum())


def quiet(calls, f):
    plan, count = calls.plan, dict(calls.count)
    calls.plan = {}
    try:
        return f()
    finally:
        calls.plan, calls.count = plan, count


def refused(sim, e, log, start, with_rsg, N, n_obj, max_iters, interval, RSG):
    """errors that the inputs explain"""
    text = str(e)
    trajectory = [start[1]] + [y for _, y, *_ in log]
    if len(log) < max_iters:
        i = len(log)
        if i > 0 and i % interval == 0:
            Y = (1 - BETA) * trajectory[i] + BETA * trajectory[i].mean(axis=1, keepdims=True)
            R = RSG(Py=Y, Nf=N) if with_rsg else Y
            if len(R) < N or not np.all(np.isfinite(R)):
                sim.probe("too-few-reference-points")
                return  # the generator gave fewer points than there are to match
    raise e


def check_points(points, base, eta, where):
    """every reference point is one of those installed, moved along the direction"""
    D = points[:, None] - base[None]
    c = D @ eta / (eta @ eta)
    off = np.linalg.norm(D - c[..., None] * eta, axis=2)
    steps = (c - 0.05) / 0.08
    ok = (off < 1e-9) & (np.abs(steps - np.round(steps)) < 1e-6) & (steps > -0.5)
    if not np.all(ok.any(axis=1)):
        raise Violation("reference-points", f"{where}: not the installed ones")


def check_file(disk, name, data, where):
    path = disk.path(name)
    if not os.path.exists(path):
        raise Violation("file-missing", f"{where}: {name}, there are {sorted(os.listdir(disk.root))}")
    plan, disk.plan = disk.plan, {}
    got = read(path)
    disk.plan = plan
    got = got[:, : data.shape[1]] if name.startswith("X") else got
    if got.shape != data.shape or not np.allclose(got, data, rtol=1e-14, atol=0):
        raise Violation("file-content", f"{where}: {name}")
