"""C02: failures are reported, and a repeated iteration equals an undisturbed one."""

import numpy as np

from .. import world
from ..core import Sim, Violation
from ..world import CALLBACK_FAULTS, INJECTED, Calls, Scenario, iterate, kernels

KINDS = sorted(CALLBACK_FAULTS)
# failures of these kernels are answered by a fallback, except for interrupts and exits
WITH_FALLBACK = {"solve", "spsolve", "cholesky"}
KERNELS = ["solve", "spsolve", "cholesky", "lstsq", "assignment", "kmedoids"]


def setup():
    world.import_hvd()
    import hvd.mmd_newton  # noqa: F401


def snapshot(opt):
    out = dict(
        X=np.array(opt.state.X), Y=np.array(opt.state.Y), J=np.array(opt.state.J), N=opt.N,
        step_size=np.array(opt.step_size, dtype=float).ravel(), step=np.array(opt.step),
    )
    if type(opt).__name__ in ("DpN", "MMDNewton"):
        out["reference_set"] = np.array(opt.ref.reference_set)
        out["n_medoids"] = [len(opt.history_medoids[k]) for k in range(opt.N)]
    if type(opt).__name__ != "Lara":
        out["R"] = np.array(opt.R)
        out["indicator"] = np.array(opt.curr_indicator_value, dtype=float)
    return out


def histories(opt):
    out = dict(
        history_X=[np.array(x) for x in opt.history_X], history_Y=[np.array(y) for y in opt.history_Y],
        history_R_norm=np.array(opt.history_R_norm, dtype=float), iter_count=opt.iter_count,
        stop=sorted(opt.stop_dict.items()),
    )
    if type(opt).__name__ != "Lara":
        out["history_indicator_value"] = np.array(opt.history_indicator_value, dtype=float)
    if type(opt).__name__ in ("DpN", "MMDNewton"):
        out["history_medoids"] = [np.array(opt.history_medoids[k]) for k in range(opt.N)]
    return out


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-11, equal_nan=True)
    return a == b


def compare(want, got, where, kind="differs-from-undisturbed"):
    for name in want:
        if not same(want[name], got[name]):
            raise Violation(f"{kind}-{name}", f"{where}: {str(want[name])[:150]} became {str(got[name])[:150]}")


def run(sim):
    s = Scenario(sim, [("HVN", 3), ("DpN", 5), ("Lara", 1), ("MMDNewton", 1)], max_iters=(1, 5), outside=sim.flip(0.3, "outside"))
    sim.sample.update(s.describe())
    # the undisturbed run, which also tells how often each site is called
    calm = Calls(Sim(0), latency=False)
    with kernels(calm, KERNELS):
        opt = s.build(calm)
        constructed = dict(calm.count)
        truth = []
        for _ in range(s.max_iters):
            iterate(opt)
            opt.log()
            truth.append(snapshot(opt))
        opt.terminate()
        final = histories(opt)
        result = [np.array(opt.state.primal), np.array(opt.state.Y)]

    calls = Calls(sim)
    for _ in range(1 + sim.choose(3, "n-faults")):
        sites = [k for k in sorted(calm.count) if not k.endswith("_batch")]
        site = sim.pick(sites, "site")
        at = sim.choose(calm.count[site], "at")
        kinds = ["interrupt", "exit"] if site in WITH_FALLBACK else KINDS
        for j in range(1 + (sim.choose(4, "burst") == 3)):
            kind = sim.pick(kinds, "kind")
            calls.plan[(site, at + j)] = kind
            sim.cover(s.key(), site, at >= constructed.get(site, 0), kind)
    use_run = sim.flip(0.4, "use-run")
    with kernels(calls, KERNELS):
        opt = attempt(sim, calls, lambda: s.build(calls), "construction")
        if use_run:
            primal, Y, stop = attempt(sim, calls, opt.run, "run")
            if not (same(result[0], np.asarray(primal)) and same(result[1], np.asarray(Y))):
                raise Violation("differs-from-undisturbed-result", s.kind)
        else:
            for i in range(s.max_iters):
                attempt(sim, calls, lambda: iterate(opt), f"iteration {i}")
                opt.log()
                compare(truth[i], snapshot(opt), f"{s.kind} iteration {i}")
            opt.terminate()
        compare(final, histories(opt), s.kind)
        compare(truth[-1], snapshot(opt), f"{s.kind} at the end")
    sim.log("end", opt.state.X)


def attempt(sim, calls, action, what):
    for _ in range(12):
        fired = len(calls.fired)
        try:
            out = action()
        except INJECTED as e:
            if len(calls.fired) == fired:
                raise Violation("failure-reported-late", f"{what}: {e!r} was injected earlier") from e
            if e is not calls.last:
                raise Violation("failure-replaced", f"{what}: {calls.last!r} became {e!r}") from e
            sim.probe(f"failed-{what.split()[0]}")
            continue
        except BaseException as e:
            if len(calls.fired) > fired:
                raise Violation("failure-replaced", f"{what}: {calls.last!r} became {e!r}") from e
            raise
        if len(calls.fired) > fired:
            site, at, kind = calls.fired[-1]
            raise Violation(f"failure-swallowed-{site}", f"{what} went on after {kind} in {site}")
        return out
    raise Violation("no-progress", what)
