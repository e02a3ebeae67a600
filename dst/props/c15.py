"""C15: creating pymoo-backed problems leaves pymoo's backend and JAX' precision as configured.

Every run is a fresh interpreter (a fork of one that has imported neither JAX, pymoo, nor the package): a history of
imports, backend settings and creations of problems, the imports of which fail as the seed says."""

import importlib
import os
import pickle
import sys

import numpy as np

from ..core import SimError, SimInterrupt, SimMemoryError, SimOSError, Violation
from ..forked import forked
from ..threads import Scheduler

HANG_S = 60
MULTI = ["bnh", "osy", "srn", "tnk", "zdt1", "zdt2", "zdt3", "zdt4", "zdt6"]
MANY = ["dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz5", "dtlz6", "dtlz7"]
KWARGS = {**{k: dict(n_var=4) for k in MULTI[4:]}, **{k: dict(n_var=6, n_obj=3) for k in MANY}}
TABLE = {}


class SimImportError(ImportError):
    pass


KINDS = {"import": SimImportError, "memory": SimMemoryError, "oserror": SimOSError, "interrupt": SimInterrupt, "error": SimError}


def family(name):
    folder, file = ("multi", "zdt" if name.startswith("zdt") else name) if name in MULTI else ("many", "dtlz")
    return f"pymoo.problems.{folder}.{file}"


def _reference():
    """the problems as pymoo itself evaluates them, in an interpreter of its own"""
    out = {}
    rng = np.random.RandomState(5)
    for name in MULTI + MANY:
        p = getattr(importlib.import_module(family(name)), name.upper())(**KWARGS.get(name, {}))
        X = p.xl + (p.xu - p.xl) * rng.uniform(0.15, 0.85, (3, p.n_var))
        e = lambda X: {k: np.asarray(v) for k, v in p.evaluate(X, return_as_dictionary=True).items() if k in "FGH"}
        eps = 1e-6
        J = []
        for x in X:
            E = np.eye(p.n_var) * eps
            J.append(((e(x + E)["F"] - e(x - E)["F"]) / (2 * eps)).T)
        out[name] = (X, e(X), np.array(J), p.n_ieq_constr, np.array(p.xl, dtype=float), np.array(p.xu, dtype=float))
    return out


def setup():
    import matplotlib.pyplot  # noqa: F401
    import pandas  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import sklearn.cluster  # noqa: F401
    import sklearn.neighbors  # noqa: F401

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(_reference()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        TABLE.update(pickle.loads(f.read()))
    os.waitpid(pid, 0)
    loaded = {"jax", "pymoo", "hvd"} & set(sys.modules)
    assert not loaded, loaded


class Imports:
    """sees every first import, and fails the one the plan names"""

    def __init__(self, sim):
        self.sim, self.at, self.kind, self.only, self.count = sim, None, None, None, 0
        self.error = None

    def arm(self, at, kind, only=None):
        self.at, self.kind, self.only, self.count, self.error = at, kind, only, 0, None

    def disarm(self):
        self.at = None

    def find_spec(self, name, path=None, target=None):
        if self.at is None or self.only and not name.startswith(self.only):
            return None
        if self.count == self.at:
            self.count += 1
            self.sim.fault("import:" + self.kind)
            self.sim.log("fails", name)
            self.error = KINDS[self.kind](f"injected: {name}")
            raise self.error
        self.count += 1
        return None


class World:
    def __init__(self, sim):
        self.sim = sim
        self.backend = "autograd.numpy"  # pymoo's default
        self.tags = {}  # problem module of pymoo -> backend it was imported with
        self.hvd = False
        self.imports = Imports(sim)
        self.bounds = None  # of the problem created last
        self.jax_dirty = False

    def note(self, backend):
        for m in list(sys.modules):
            if m.startswith("pymoo.problems.") and m not in self.tags and hasattr(sys.modules[m], "anp"):
                self.tags[m] = backend

    def check(self, where):
        sim = self.sim
        gradient = sys.modules.get("pymoo.gradient")
        if gradient is not None and gradient.TOOLBOX != self.backend:
            raise Violation("backend-changed", f"{where}: {gradient.TOOLBOX} instead of {self.backend}")
        if gradient is not None:
            import pymoo.gradient.toolbox as anp

            if anp.__name__ != self.backend:
                raise Violation("toolbox-changed", f"{where}: {anp.__name__} instead of {self.backend}")
            sim.probe("backend-checked")
        if self.hvd and "jax" in sys.modules:
            import jax
            import jax.numpy as jnp

            if not jax.config.jax_enable_x64 or jnp.zeros(2).dtype != np.float64 or jnp.asarray(0.1, dtype=float).dtype != np.float64:
                raise Violation("precision", f"{where}: {jnp.zeros(2).dtype}")
            sim.probe("precision-checked")

    def create(self, name, kwargs=None):
        from hvd.problems import get_pymoo_problem

        upper = self.sim.flip(0.3, "upper-case")
        self.bounds = self.sim.pick([None, True, False], "boundary-constraints")
        how = {} if self.bounds is None else dict(boundary_constraints=self.bounds)
        return get_pymoo_problem(name.upper() if upper else name, **how, **(KWARGS.get(name, {}) if kwargs is None else kwargs))

    def check_problem(self, name, p, full):
        X, values, J, n_ieq, xl, xu = TABLE[name]
        if not (np.array_equal(p.xl, xl) and np.array_equal(p.xu, xu)) or p.n_obj != J.shape[1]:
            raise Violation("other-problem", f"{name}: box {p.xl} {p.xu}, {p.n_obj} objectives")
        n_bounds = {None: p.n_ieq_constr - n_ieq, True: 2 * p.n_var, False: 0}[self.bounds]
        if p.n_ieq_constr - n_ieq != n_bounds or n_bounds not in (0, 2 * p.n_var):
            raise Violation("other-problem", f"{name}: {p.n_ieq_constr} constraints with bounds {self.bounds} instead of {n_ieq} + {n_bounds}")
        if n_bounds and full:
            G = np.asarray(p.ieq_constraint(X[0])).ravel()[n_ieq:]
            if not np.allclose(np.sort(G), np.sort(np.r_[xl - X[0], X[0] - xu])):
                raise Violation("other-problem", f"{name}: bounds as constraints {G}")
        Y = np.asarray(p.objective_batch(X)) if full else np.asarray(p.objective(X[0]))[None]
        if Y.dtype != np.float64:
            raise Violation("precision", f"{name}: values are {Y.dtype}")
        if not np.allclose(Y, values["F"][: len(Y)], rtol=1e-10, atol=1e-12):
            raise Violation("other-problem", f"{name}: {Y} instead of {values['F']}")
        if full:
            got = np.asarray(p.objective_jacobian(X[0]))
            if not np.allclose(got, J[0], rtol=1e-4, atol=1e-4 * np.abs(J[0]).max()):
                raise Violation("other-problem", f"{name}: Jacobian {got} instead of {J[0]}")
            if n_ieq:
                G = np.asarray(p.ieq_constraint(X[0])).ravel()
                if not np.allclose(G[:n_ieq], values["G"][0], rtol=1e-10, atol=1e-12):
                    raise Violation("other-problem", f"{name}: constraints {G} instead of {values['G'][0]}")
        self.sim.probe("problems-checked")

    def outcome(self, name, f, where, injected=lambda: None, full=False, bad=False):
        """what creating `name` must do, given what has been imported how"""
        tag = self.tags.get(family(name))
        try:
            p = f()
        except BaseException as e:
            self.note("jax.numpy")
            cause = injected()
            chain = [e, e.__cause__, e.__context__]
            if cause is not None and any(c is cause for c in chain):
                self.sim.probe("creation-failed")
                return e
            if tag not in (None, "jax.numpy") and isinstance(e, RuntimeError) and cause is None:
                self.sim.probe("refused")
                return e
            if bad and isinstance(e, (TypeError, ValueError)) and cause is None:
                self.sim.probe("bad-arguments-refused")
                return e
            raise Violation("creation-refused", f"{where}: {name}, imported with {tag}: {e!r}") from e
        self.note("jax.numpy")
        if injected() is not None:
            raise Violation("failure-swallowed", f"{where}: {injected()!r}")
        if tag not in (None, "jax.numpy"):
            raise Violation("broken-problem", f"{where}: {name} was imported with {tag}, and is returned")
        if not bad:  # some of pymoo's problems accept any argument
            self.check_problem(name, p, full)
        return None


def history(sim):
    w = World(sim)
    sys.meta_path.insert(0, w.imports)
    env = sim.pick([None, "0", "False", "1"], "x64-variable")
    os.environ.pop("JAX_ENABLE_X64", None)
    if env is not None:
        os.environ["JAX_ENABLE_X64"] = env
    steps = [
        ("jax", 2), ("pymoo", 2), ("backend", 3), ("family", 2), ("hvd", 3), ("create", 6), ("other", 1), ("threads", 3), ("bad", 1),
    ]
    done = []
    for i in range(sim.integer(3, 8, "steps")):
        step = sim.weighted(steps, "step")
        where = f"step {i}, {step}"
        fail = sim.flip(0.35, "fail")
        at, kind = (sim.choose(1 << sim.choose(8, "magnitude"), "at"), sim.pick(sorted(KINDS), "kind")) if fail else (None, None)
        done.append((step, kind))
        sim.log(step, kind)
        if step == "jax":
            import jax
            import jax.numpy as jnp

            if sim.flip(0.5, "use"):
                jax.jit(lambda x: x * 2)(jnp.ones(3))
        elif step == "pymoo":
            importlib.import_module(sim.pick(["pymoo.core.problem", "pymoo.gradient", "pymoo.gradient.toolbox", "pymoo.constraints.from_bounds"], "module"))
        elif step == "backend":
            import pymoo.gradient as gradient

            w.backend = sim.pick(["autograd.numpy", "jax.numpy", "numpy"], "backend")
            gradient.activate(w.backend)
            done[-1] += (w.backend,)
        elif step == "family":
            w.imports.arm(at, kind, ("pymoo.problems",)) if fail else None
            try:
                importlib.import_module(sim.pick(["pymoo.problems.multi", "pymoo.problems.many", "pymoo.problems.multi.zdt"], "module"))
            except BaseException as e:
                if e is not w.imports.error:
                    raise
            w.imports.disarm()
            w.imports.error = None
            w.note(w.backend)
        elif step == "hvd":
            w.imports.arm(at, kind, ("hvd", "pymoo")) if fail else None
            try:
                importlib.import_module(sim.pick(["hvd", "hvd.problems", "hvd.mmd", "hvd.newton"], "module"))
                if w.imports.error is not None and not w.hvd:
                    raise Violation("failure-swallowed", f"{where}: {w.imports.error!r}")
                w.hvd = True
            except BaseException as e:
                if e is not w.imports.error:
                    raise
                sim.probe("import-of-hvd-failed")
            w.imports.disarm()
            w.imports.error = None
            w.note(w.backend)
        elif step == "other":
            m = importlib.import_module(sim.pick(["pymoo.problems.single.ackley", "pymoo.problems.single.sphere"], "module"))
            w.note(w.backend)
            if m.anp.__name__ != w.tags[m.__name__]:
                raise Violation("toolbox-changed", f"{where}: {m.__name__} got {m.anp.__name__}, {w.backend} is configured")
        elif step in ("create", "bad"):
            import hvd.problems

            w.hvd = True
            name = sim.pick(MULTI + MANY, "name")
            done[-1] += (name, w.tags.get(family(name)))
            if step == "bad" and sim.flip(0.5, "unknown"):
                try:
                    hvd.problems.get_pymoo_problem("zdt5")
                except ValueError:
                    pass
                else:
                    raise Violation("unknown-accepted", where)
            elif step == "bad":
                w.outcome(name, lambda: w.create(name, dict(nonsense=1)), where, bad=True)
            else:
                trace = fail and sim.flip(0.3, "tracing")
                hit = []
                if trace:
                    import jax

                    shape, e = jax.eval_shape, KINDS[kind]("injected: tracing")

                    def eval_shape(*a, **k):
                        hit.append(e)
                        sim.fault("tracing:" + kind)
                        raise e

                    jax.eval_shape = eval_shape
                elif fail:
                    w.imports.arm(at, kind)
                try:
                    w.outcome(name, lambda: w.create(name), where, lambda: hit[0] if hit else w.imports.error, full=sim.flip(0.25, "full"))
                finally:
                    if trace:
                        jax.eval_shape = shape
                    w.imports.disarm()
                    w.imports.error = None
        elif step == "threads":
            import hvd.problems  # noqa: F811

            w.hvd = True
            names = [sim.pick(MULTI + MANY, "name") for _ in range(sim.integer(2, 3, "n-threads"))]
            done[-1] += tuple((n, w.tags.get(family(n))) for n in names)
            w.bounds = None
            tags = dict(w.tags)
            s = Scheduler(sim, eagerness=5)
            kw = [KWARGS.get(n, {}) for n in names]
            results = s.run([lambda n=n, k=k: hvd.problems.get_pymoo_problem(n, **k) for n, k in zip(names, kw)])
            for n, (p, e) in zip(names, results):
                w.tags = dict(tags)

                def f(p=p, e=e):
                    if e is not None:
                        raise e
                    return p

                w.outcome(n, f, where)
            sim.probe("concurrent-creations")
        w.check(where)
    # afterwards a creation works
    import hvd.problems  # noqa: F811

    w.hvd = True
    name = sim.pick(MULTI + MANY, "name")
    w.outcome(name, lambda: w.create(name), "finally")
    w.check("finally")
    sim.cover(*done)
    sim.sample.update(steps=[str(d) for d in done], env=env)
    sim.log("end", *done)


def run(sim):
    forked(sim, history)
