"""C08: a checkpoint of a State survives crashes and I/O errors."""

import os
from copy import deepcopy

import numpy as np

from .. import world
from ..core import SimInterrupt, Violation
from ..disk import Crash, Disk
from ..world import STYLES, Calls, Problem, check_state

CALLBACKS = ("func", "jac", "h", "h_jac", "h_hess", "g", "g_jac", "g_hess")


def setup():
    world.import_hvd()
    import hvd.base  # noqa: F401
    import pandas  # noqa: F401


def data_of(state):
    out = {}
    for name, value in vars(state).items():
        if name in CALLBACKS or callable(value):
            continue
        out[name] = value.copy() if isinstance(value, np.ndarray) else deepcopy(value)
    return out


def difference(a, b):
    """what distinguishes the data of two states, None if nothing"""
    if set(a) != set(b):
        return f"attributes {sorted(set(a) ^ set(b))}"
    for name in a:
        u, v = a[name], b[name]
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            if not (isinstance(u, np.ndarray) and isinstance(v, np.ndarray)) or u.dtype != v.dtype or u.shape != v.shape or not np.array_equal(u, v, equal_nan=u.dtype.kind == "f"):
                return name
        elif type(u) is not type(v) or u != v:
            return name
    return None


class World:
    def __init__(self, sim):
        self.sim = sim
        n_var = sim.integer(1, 3, "n_var")
        n_eq, n_ieq = sim.choose(2, "n_eq"), sim.choose(3, "n_ieq")
        self.p = Problem(sim, n_var, 2 + sim.choose(2, "n_obj"), n_eq, n_ieq)
        self.calls = Calls(sim)
        self.cb = self.p.callbacks(self.calls, sim.pick(STYLES, "style"))
        self.rng = sim.rng("points")
        self.N = sim.pick([3, 1, 2, 5, 300], "N")

    def args(self):
        cb, p = self.cb, self.p
        out = dict(func=cb["func"], jac=cb["jac"])
        for c, n in (("h", p.n_eq), ("g", p.n_ieq)):
            if n:
                out.update({c: cb[c], f"{c}_jac": cb[f"{c}_jac"], f"{c}_hess": cb[f"{c}_hess"]})
        return out

    def fresh(self):
        from hvd.base import State

        s = State(self.p.n_var, self.p.n_eq, self.p.n_ieq, **self.args())
        self.move(s)
        return s

    def points(self, n):
        p = self.p
        X = p.xl + (p.xu - p.xl) * self.rng.rand(n, p.n_var)
        return np.c_[X, self.rng.randn(n, p.n_eq + p.n_ieq)]

    def move(self, state):
        how = self.sim.choose(3, "move")
        if how == 0 or "X" not in vars(state):
            state.update(self.points(self.N))
        elif how == 1:
            state.update_one(self.points(1)[0], self.rng.randint(len(state.X)))
        else:
            n = 1 + self.rng.randint(len(state.X))
            return state[np.sort(self.rng.permutation(len(state.X))[:n])]
        return state


def run(sim):
    from hvd.base import State

    w = World(sim)
    cwd = os.getcwd()
    disk = Disk(sim, SimInterrupt)
    disk.chunk = sim.pick([1 << 20, 512, 64, 4096], "chunk")
    relative = sim.flip(0.3, "relative")
    os.mkdir(disk.path("sub"))
    names = [("" if relative else disk.root + os.sep) + n for n in sim.pick([["a"], ["a", "b"], ["run.1", "sub/x y"]], "names")]
    horizon = 30 if sim.flip(0.7, "early") else 150
    for _ in range(sim.integer(0, 4, "n-faults")):
        at, what = sim.choose(horizon, "at"), sim.choose(6, "fault")
        for j in range(1 + 3 * (sim.choose(4, "burst") == 3)):
            disk.plan[at + j] = what
    maybe = {n: [None] for n in names}
    saves = 0
    sim.sample.update(N=w.N, names=names, plan=dict(disk.plan))
    sim.cover(w.N, len(names), relative, disk.chunk, tuple(sorted(disk.plan.items())))

    def look(name):
        """the state in a checkpoint file, None if there is no file"""
        try:
            return State.load(name + ".pkl")
        except FileNotFoundError:
            return None
        except (OSError, SimInterrupt) as e:
            if "injected" in str(e):
                raise
            raise Violation("checkpoint-unreadable", f"{e!r}") from e
        except (Crash, Violation):
            raise
        except BaseException as e:
            raise Violation("checkpoint-unreadable", f"{e!r}") from e

    def checked(name, where):
        loaded = look(name)
        data = None if loaded is None else data_of(loaded)
        reasons = []
        for i, want in enumerate(maybe[name]):
            if (want is None) != (data is None):
                reasons.append("missing" if data is None else "unexpected")
                continue
            d = None if want is None else difference(want, data)
            if d is None:
                sim.probe("loads-checked")
                return loaded, i
            reasons.append(d)
        if data is None:
            raise Violation("checkpoint-lost", f"{where}: {name}")
        if maybe[name] == [None]:
            raise Violation("checkpoint-from-nowhere", f"{where}: {name}")
        raise Violation("checkpoint-differs", f"{where}: {name}: {reasons[-3:]}")

    def revive(loaded):
        for k, f in w.args().items():
            setattr(loaded, k, f)
        for k in CALLBACKS:
            if k not in vars(loaded):
                setattr(loaded, k, None)
        return loaded

    def restart(where):
        nonlocal state
        disk.crash(clean=sim.flip(0.3, "process-only"))
        found = None
        for n in names:
            loaded, i = settled(lambda: checked(n, where))
            maybe[n] = [maybe[n][i]]
            found = loaded if loaded is not None else found
        state = w.fresh() if found is None else revive(found)
        sim.log("restart", where, found is not None)

    def settled(action):
        """repeat until no fault is injected"""
        for _ in range(40):
            try:
                return action()
            except Crash:
                disk.crash()
            except (OSError, SimInterrupt) as e:
                if "injected" not in str(e):
                    raise
        raise Violation("no-progress", "faults do not end")

    state = w.fresh()
    try:
        if relative:
            os.chdir(disk.root)
        with disk.mounted():
            for step in range(sim.integer(1, 10, "n-steps")):
                op = sim.weighted([("save", 6), ("move", 4), ("load", 2), ("crash", 1)], "op")
                if op == "move":
                    state = w.move(state)
                    continue
                if op == "crash":
                    restart("crash between operations")
                    continue
                name = sim.pick(names, "name")
                if op == "save":
                    before = data_of(state)
                    callbacks = {k: vars(state).get(k) for k in CALLBACKS}
                    fired = len(disk.fired)
                    try:
                        state.save(name)
                    except Crash:
                        maybe[name].append(before)
                        restart(f"crash at {disk.trace[-1]}")
                        continue
                    except (OSError, SimInterrupt) as e:
                        if "injected" not in str(e):
                            raise
                        if len(disk.fired) == fired:
                            raise Violation("failure-reported-late", repr(e)) from e
                        maybe[name].append(before)
                        sim.probe("failed-saves")
                    else:
                        maybe[name] = [before]
                        saves += 1
                        sim.probe("saves")
                    d = difference(before, data_of(state))
                    if d is not None or any(vars(state).get(k) is not v and vars(state).get(k) != v for k, v in callbacks.items()):
                        raise Violation("save-changed-state", str(d))
                try:
                    checked(name, "after " + op)
                except Crash:
                    restart("crash while loading")
                except (OSError, SimInterrupt) as e:
                    if "injected" not in str(e):
                        raise
            # once the faults have stopped
            disk.plan.clear()
            for n in names:
                checked(n, "at the end")
            state.save(names[0])
            maybe[names[0]] = [data_of(state)]
            disk.crash()
            for n in names:
                loaded, i = checked(n, "after the last crash")
                if loaded is None:
                    continue
                usable(w, maybe[n][i], loaded, revive)
            leftovers(sim, disk, names)
            # a checkpoint of which only a part was copied is an error
            with open(names[0] + ".pkl", "rb") as f:
                whole = f.read()
            n = sim.pick([0, 1, len(whole) // 2, len(whole) - 1, len(whole) - 4], "part")
            with open(disk.path("part.pkl"), "wb") as f:
                f.write(whole[:n])
            try:
                State.load(disk.path("part.pkl"))
            except Exception:
                sim.probe("parts-refused")
            else:
                raise Violation("part-loaded", f"{n} of {len(whole)} bytes were loaded as a state")
    finally:
        os.chdir(cwd)
        disk.remove()
    sim.log("end", saves, disk.ops, state.X)


def usable(w, want, loaded, revive):
    """a loaded state works like the saved one"""
    part = loaded[np.arange(loaded.N)[:1]]
    if not np.array_equal(part.X, want["X"][:1]):
        raise Violation("loaded-state-unusable", "slicing")
    if not np.array_equal(deepcopy(loaded).Y, want["Y"]):
        raise Violation("loaded-state-unusable", "copying")
    revive(loaded)
    check_state(w.p, loaded, "loaded state")
    loaded.update(loaded.X)
    check_state(w.p, loaded, "loaded state after an update")
    if any(not np.allclose(want[k], vars(loaded)[k], rtol=1e-12, atol=1e-12) for k in ("X", "Y", "J", "cstr_value", "cstr_grad")):
        raise Violation("loaded-state-unusable", "re-evaluation differs")


def leftovers(sim, disk, names):
    n = len([f for _, _, fs in os.walk(disk.root) for f in fs])
    if n > 3 * len(names):
        sim.probe("leftover-files", n)
