"""C16: evaluations of a problem agree alone, in batches, repeated, from threads and through pymoo; the time spent on
derivatives adds up."""

import os
import sys
import time
import warnings

import numpy as np

from .. import world
from ..core import SimInterrupt, Violation
from ..threads import Scheduler

HANG_S = 90
SPECS = {}
TICK = 1000
REPO = os.path.join(os.environ.get("HVD_REPO", "/repo"), "")


def setup():
    world.import_hvd()
    import jax.numpy as jnp

    import hvd.problems as P

    for name in P.__all__[4:]:
        cls = getattr(P, name)
        for kw in (dict(n_var=4, n_obj=2), dict(n_var=4, n_obj=3), dict(n_var=4), dict(n_var=5), dict(n_var=6, n_obj=2), {}):
            if name.startswith("WFG") and kw.get("n_var") != 6 and kw:
                continue
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("error")
                    p = cls(**kw)
                p.objective(p.xl + 0.4 * (p.xu - p.xl))
            except Exception:
                continue
            SPECS[name] = (cls, kw)
            break

    class Custom(P.CMOP):
        """a user's problem whose values and derivatives are known"""

        def __init__(self, seed, n_var, n_obj, n_eq, n_ieq, boundary):
            rng = np.random.RandomState(seed)
            self.A, self.B = rng.randn(n_obj, n_var, n_var), rng.randn(n_obj, n_var)
            self.E, self.e = rng.randn(max(n_eq, 1), n_var), rng.randn(max(n_eq, 1))
            self.G, self.g = rng.randn(max(n_ieq, 1), n_var, n_var), rng.randn(max(n_ieq, 1), n_var)
            self.box = rng.uniform(-2, -1, n_var), rng.uniform(1, 2, n_var)
            self.given = [b.copy() for b in self.box]  # what its maker may use for other things later on
            super().__init__(
                n_var=n_var, n_obj=n_obj, xl=self.given[0], xu=self.given[1], n_eq_constr=n_eq,
                n_ieq_constr=n_ieq, boundary_constraints=boundary,
            )
            self.n_user = n_ieq
            self.boundary = boundary

        def _objective(self, x):
            return jnp.einsum("kij,i,j->k", self.A, x, x) + jnp.asarray(self.B) @ x**3

        def _eq_constraint(self, x):
            return jnp.asarray(self.E) @ x - self.e

        def _ieq_constraint(self, x):
            return jnp.einsum("kij,i,j->k", self.G, x, x) + jnp.asarray(self.g) @ x

        def exact(self, what, order, x):
            n = self.n_var
            I = np.eye(n)
            if what == "objective":
                S = self.A + self.A.transpose(0, 2, 1)
                return [
                    np.einsum("kij,i,j->k", self.A, x, x) + self.B @ x**3,
                    S @ x + 3 * self.B * x**2,
                    S + 6 * (self.B * x)[:, :, None] * I,
                ][order]
            if what == "eq":
                return [self.E @ x - self.e, self.E, np.zeros((len(self.E), n, n))][order]
            S = self.G + self.G.transpose(0, 2, 1)
            out = [np.einsum("kij,i,j->k", self.G, x, x) + self.g @ x, S @ x + self.g, S][order][: self.n_user]
            if self.boundary:
                out = np.concatenate([out, [np.r_[self.box[0] - x, x - self.box[1]], np.r_[-I, I], np.zeros((2 * n, n, n))][order]])
            return out

    setup.Custom = Custom
    assert len(SPECS) > 50, len(SPECS)


METHODS = {
    ("objective", 0): "objective", ("objective", 1): "objective_jacobian", ("objective", 2): "objective_hessian",
    ("eq", 0): "eq_constraint", ("eq", 1): "eq_jacobian", ("eq", 2): "eq_hessian",
    ("ieq", 0): "ieq_constraint", ("ieq", 1): "ieq_jacobian", ("ieq", 2): "ieq_hessian",
}


class Clock:
    """every reading of any clock takes a tick; readings by the package are attributed to the running evaluation.
    The wall clock is set forward and back in between"""

    names = ["process_time", "thread_time", "perf_counter", "monotonic", "time"]

    def __init__(self, sim):
        self.sim = sim
        self.now = 10**9
        self.offset = 10**18  # of the wall clock
        self.reads = None  # of the running evaluation: thread -> list
        self.who = lambda: 0

    def read(self):
        self.now += TICK * (1 + self.sim.choose(8, "tick"))
        self.sim.clock = self.now * 1e-9
        if self.reads is not None:
            self.reads.setdefault(self.who(), []).append(self.now)
        if self.sim.choose(6, "clock-jump") == 5:
            self.sim.fault("clock-jump")
            self.offset += self.sim.pick([-(10**10), -(10**6), 10**6, 3 * 10**12], "jump")
        return self.now

    def __enter__(self):
        self.real = {}

        def fake(f, scale, wall):
            def read():
                if sys._getframe(1).f_code.co_filename.startswith(REPO):
                    now = self.read() + (self.offset if wall else 0)
                    return now * scale if scale != 1 else now
                return f()

            return read

        for n in self.names:
            for name, scale in ((n, 1e-9), (n + "_ns", 1)):
                self.real[name] = getattr(time, name)
                setattr(time, name, fake(self.real[name], scale, n == "time"))
        return self

    def __exit__(self, *_):
        for name, f in self.real.items():
            setattr(time, name, f)


def near(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0)), initial=0.0)
    return np.allclose(a, b, rtol=tol, atol=tol * max(scale, 1e-3), equal_nan=True)


class Subject:
    def __init__(self, sim, k):
        custom = sim.flip(0.5, "custom")
        if custom:
            n_eq, n_ieq, boundary = sim.choose(3, "n_eq"), sim.choose(3, "n_ieq"), sim.flip(0.5, "boundary")
            args = (sim.choose(1 << 16, "problem"), sim.integer(1, 4, "n_var"), sim.integer(1, 3, "n_obj"), n_eq, n_ieq, boundary)
            self.p = setup.Custom(*args)
            self.name = f"custom{args[1:]}"
        else:
            self.name = sim.pick(sorted(SPECS), "problem")
            cls, kw = SPECS[self.name]
            self.p = cls(**kw)
        self.custom = custom
        p = self.p
        rng = sim.rng("points")
        self.points = p.xl + (p.xu - p.xl) * rng.uniform(0.02, 0.98, (sim.integer(2, 4, "n-points"), p.n_var))
        kinds = [("objective", 0)]
        n_eq, n_ieq = getattr(p, "n_eq_constr", 0), getattr(p, "n_ieq_constr", 0)
        other = [("objective", 1), ("objective", 2)]
        if n_eq:
            other += [("eq", i) for i in range(3)]
        if n_ieq:
            other += [("ieq", i) for i in range(3)]
        rows = {"objective": p.n_obj, "eq": n_eq, "ieq": n_ieq}
        for _ in range(2):
            kinds.append(other[sim.choose(len(other), "method")])
        self.menu = sorted(set(kinds))
        self.shape = {k: (rows[k[0]],) + (p.n_var,) * k[1] for k in self.menu}
        self.first = {}  # (kind, point) -> value
        self.cpu = p.CPU_time
        self.adapter = None
        self.arrays = {}

    def reference(self, kind, i, got, where):
        got = np.atleast_1d(got)
        if self.custom:
            want = self.p.exact(*kind, self.points[i])
            if not near(got, want):
                raise Violation("value", f"{where}: {self.name} {METHODS[kind]} {got} instead of {want}")
        key = (kind, i)
        if key not in self.first:
            self.first[key] = np.array(got, copy=True)
        elif not near(got, self.first[key]):
            raise Violation("disagree", f"{where}: {self.name} {METHODS[kind]} {got} instead of {self.first[key]}")


def batch_input(sim, X, reordered=True):
    how = sim.pick(["array", "array", "fortran", "strided", "list", "jax", "readonly"], "container")
    if how == "fortran":
        return np.asfortranarray(X)
    if how == "strided":
        Z = np.full((2 * len(X), X.shape[1] + 1), 7.0)
        Z[::2, :-1] = X
        return Z[::2, :-1]
    if how == "list":
        return X.tolist() if len(X) else X
    if how == "jax":
        import jax.numpy as jnp

        return jnp.asarray(X)
    X = X.copy()
    X.flags.writeable = how != "readonly"
    return X


def run(sim):
    clock = Clock(sim)
    subjects = [Subject(sim, k) for k in range(sim.weighted([(1, 4), (2, 1)], "n-problems"))]
    size = sim.integer(2, 5, "batch-size")
    sim.sample.update(problems=[s.name for s in subjects], menus=[[METHODS[k] for k in s.menu] for s in subjects], batch=size)
    handed = []  # (array, copy, where)
    steps = []
    with clock:
        for step in range(sim.integer(3, 9, "steps")):
            s = sim.pick(subjects, "subject")
            kind = sim.pick(s.menu, "kind")
            what = sim.weighted([("single", 4), ("batch", 5), ("adapter", 2), ("bad", 2), ("scribble", 2), ("threads", 2), ("interrupt", 2)], "what")
            where = f"step {step}, {what}"
            steps.append((what, kind))
            if what == "scribble":  # the caller writes into results it got
                for a, b, _ in handed:
                    if isinstance(a, np.ndarray) and a.flags.writeable and sim.flip(0.5, "write"):
                        a[...] = -77.0
                        b[...] = -77.0
                for q in subjects:
                    if q.custom and sim.flip(0.5, "write-bounds"):
                        for b in q.p.given:
                            b += 0.25
                continue
            if what == "adapter":
                adapter(sim, s, size, handed, where)
            elif what == "threads":
                threads(sim, s, size, clock, handed, where)
            elif what == "bad":
                bad(sim, s, kind, where)
            else:
                one(sim, s, kind, what, size, clock, handed, where)
            for a, b, w in handed:
                if not np.array_equal(np.asarray(a), b, equal_nan=True):
                    raise Violation("result-changed", f"{where}: what {w} returned")
            for q in subjects:
                if q.p.CPU_time < q.cpu:
                    raise Violation("time-decreased", f"{where}: {q.cpu} -> {q.p.CPU_time}")
                q.cpu = q.p.CPU_time
                if q.custom and not (np.array_equal(q.p.xl, q.p.box[0]) and np.array_equal(q.p.xu, q.p.box[1])):
                    raise Violation("bounds-changed", f"{where}: {q.p.xl} {q.p.xu} instead of {q.p.box}")
    sim.cover(*(s.name for s in subjects), *steps)
    sim.log("end", *steps)


def evaluate(sim, s, kind, batch, size, keep, where, shared=True):
    """one evaluation -> check function of its result"""
    name = METHODS[kind]
    if batch:
        n = sim.weighted([(size, 6), (1, 2), (0, 1)], "rows")
        rows = [sim.choose(len(s.points), "row") for _ in range(n)]
        X = batch_input(sim, s.points[rows] if rows else np.zeros((0, s.p.n_var)))
        f = getattr(s.p, name + "_batch")
    else:
        rows = [sim.choose(len(s.points), "row")]
        x = s.points[rows[0]]
        X = x.copy() if sim.flip(0.8, "array") else x.copy()[::1]
        f = getattr(s.p, name)
    if shared and sim.flip(0.4, "same-array"):  # the caller fills one array again and again
        B = s.arrays.setdefault((batch, len(rows)), np.zeros((len(rows), s.p.n_var) if batch else s.p.n_var))
        B[...] = s.points[rows] if batch else x
        X = B
    before = np.array(X, copy=True)

    def check(out):
        a = np.asarray(out)
        if not np.array_equal(np.asarray(X), before):
            raise Violation("input-changed", f"{where}: {s.name} {name}")
        if kind == ("eq", 0) and s.shape[kind] == (1,) and a.ndim == batch:
            a = a[..., None]  # a single constraint may be a scalar
        want = ((len(rows),) if batch else ()) + s.shape[kind]
        if a.shape != want or a.dtype != np.float64:
            raise Violation("shape", f"{where}: {s.name} {f.__name__} {a.shape} {a.dtype} instead of {want}")
        for r, i in enumerate(rows):
            s.reference(kind, i, a[r] if batch else a, f"{where}, row {r} of {len(rows)}")
        keep.append((out, np.array(out, copy=True), f"{s.name} {f.__name__}"))
        if isinstance(X, np.ndarray) and X.flags.writeable and sim.flip(0.3, "reuse-input"):
            X[...] = 3.25  # the caller's array is the caller's
        sim.probe("evaluations-checked")

    return (lambda: f(X)), check


def charged(s, kind, reads, cpu, where, completed=True):
    """what an evaluation may add to the time"""
    d = s.p.CPU_time - cpu
    r = reads or []
    total = r[-1] - r[0] if r else 0
    most = total * max(len(r) // 2, 1)  # while a function is traced, timers may be nested
    if not completed:
        if d < 0 or d > most:
            raise Violation("time", f"{where}: a failed evaluation added {d} of {total}")
    elif kind[1] == 0:
        if d < 0 or d > most or (len(r) <= 2 and d != total):
            raise Violation("time", f"{where}: {METHODS[kind]} added {d} to the time of derivatives")
    elif d <= 0 or d > most or (len(r) == 2 and d != total):
        raise Violation("time", f"{where}: {METHODS[kind]} took {total} and added {d}")


def one(sim, s, kind, what, size, clock, handed, where):
    call, check = evaluate(sim, s, kind, what != "single" and sim.flip(0.7 if what == "interrupt" else 1.0, "batch"), size, handed, where)
    clock.reads, cpu = {}, s.p.CPU_time
    if what == "interrupt":
        left = 1 + sim.choose(12, "line")
        fired = []

        def trace(frame, event, arg):
            nonlocal left
            if not frame.f_code.co_filename.startswith(REPO):
                return None
            if event == "line" and not fired:
                left -= 1
                if left == 0:
                    fired.append(1)
                    sim.fault("interrupt")
                    raise SimInterrupt("injected")
            return trace

        before = sys.gettrace()
        sys.settrace(trace)
        try:
            out = call()
            sys.settrace(before)
        except SimInterrupt:
            sys.settrace(before)
            charged(s, kind, clock.reads.get(0), cpu, where, completed=False)
            clock.reads = None
            sim.probe("interrupted-evaluations")
            return
        finally:
            sys.settrace(before)
        if fired:
            raise Violation("failure-swallowed", where)
    else:
        out = call()
    charged(s, kind, clock.reads.get(0), cpu, where)
    clock.reads = None
    check(out)


def bad(sim, s, kind, where):
    n = s.p.n_var
    x = sim.pick([np.zeros(n + 1), np.zeros((2, n + 1)), "text", None, np.array(["a"] * n), np.zeros((2, 2, n, 2))], "bad-input")
    batch = sim.flip(0.5, "batch")
    cpu = s.p.CPU_time
    try:
        getattr(s.p, METHODS[kind] + ("_batch" if batch else ""))(x)
    except Exception:
        sim.fault("bad-input")
        if s.p.CPU_time < cpu:
            raise Violation("time", f"{where}: decreased")


def adapter(sim, s, size, handed, where):
    if s.adapter is None or sim.flip(0.3, "new-adapter"):
        s.adapter = s.p.as_pymoo_problem()
        if not (np.array_equal(s.adapter.xl, s.p.xl) and np.array_equal(s.adapter.xu, s.p.xu)):
            raise Violation("bounds-changed", f"{where}: adapter {s.adapter.xl} {s.adapter.xu}")
    rows = [sim.choose(len(s.points), "row") for _ in range(sim.pick([size, size, 1], "rows"))]
    X = s.points[rows]
    if len(rows) == 1 and sim.flip(0.5, "one-dimensional"):
        X = X[0]
    cpu = s.p.CPU_time
    out = s.adapter.evaluate(X.copy(), return_as_dictionary=True)
    names = {"F": "objective"}
    if getattr(s.p, "n_eq_constr", 0):
        names["H"] = "eq"
    if getattr(s.p, "n_ieq_constr", 0):
        names["G"] = "ieq"
    for letter, what in names.items():
        a = np.asarray(out[letter], dtype=float)
        if a.size != len(rows) * (s.p.n_obj if what == "objective" else getattr(s.p, f"n_{what}_constr")):
            raise Violation("shape", f"{where}: {letter} {a.shape} for {len(rows)} rows")
        a = a.reshape(len(rows), -1)
        for r, i in enumerate(rows):
            s.reference((what, 0), i, a[r], f"{where}, {letter} row {r}")
        handed.append((out[letter], np.array(out[letter], copy=True), f"{s.name} adapter {letter}"))
    sim.probe("adapter-checked")


def threads(sim, s, size, clock, handed, where):
    plans = []
    for t in range(sim.integer(2, 3, "n-threads")):
        tasks = []
        for _ in range(sim.integer(1, 3, "n-calls")):
            kind = sim.pick(s.menu, "kind")
            tasks.append((kind, *evaluate(sim, s, kind, sim.flip(0.6, "batch"), size, handed, f"{where} T{t}", False)))
        plans.append(tasks)
    spans, outs = [], []
    scheduler = Scheduler(sim, eagerness=4)
    clock.who = lambda: scheduler.current.name

    def body(tasks):
        def f():
            for kind, call, check in tasks:
                me = scheduler.current.name
                clock.reads[me] = []
                out = call()
                spans.append((kind, clock.reads.pop(me)))
                outs.append((check, out))

        return f

    clock.reads, cpu = {}, s.p.CPU_time
    results = scheduler.run([body(t) for t in plans])
    clock.reads, clock.who = None, lambda: 0
    for _, e in results:
        if e is not None:
            raise e
    for check, out in outs:
        check(out)
    d = s.p.CPU_time - cpu
    least = sum(r[-1] - r[0] for k, r in spans if k[1] and r)
    most = sum((r[-1] - r[0]) * (len(r) // 2) for k, r in spans if r)
    exact = all(len(r) <= 2 for k, r in spans)
    if d > most or (exact and d < least):
        raise Violation("time", f"{where}: {len(spans)} concurrent evaluations took {most} and added {d}")
    sim.probe("concurrent-histories")
