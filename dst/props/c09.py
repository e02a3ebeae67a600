"""C09: the reference set matches, shifts and keeps its points consistently."""

from copy import deepcopy

import numpy as np
from scipy.optimize import linear_sum_assignment

from .. import world
from ..core import Violation
from ..world import INJECTED, Calls, kernels

SITES = ["assignment", "kmedoids", "cdist", "hausdorff"]


def setup():
    world.import_hvd()
    import hvd.delta_p  # noqa: F401
    import hvd.reference_set  # noqa: F401


def cost(Y, R):
    return np.linalg.norm(Y[:, None] - R[None], axis=2)


class Model:
    """what the reference set must be, from the outside"""

    def __init__(self, comps, eta, parts):
        self.comps = {k: v.copy() for k, v in comps.items()}
        self.eta = {k: np.array(v) for k, v in eta.items()}
        self.given = parts  # partition given by the caller, or None
        self.parts = None  # partition in use
        self.matched = None
        self.owner = None  # component of each matched point
        self.pools = {}  # component -> its clustering (shifted)

    def view(self):
        return np.concatenate(list(self.comps.values())) if self.matched is None else self.matched

    def partition(self, Y):
        if len(self.comps) == 1:
            return [np.arange(len(Y))]
        if self.parts is not None and sum(map(len, self.parts)) == len(Y):
            return self.parts
        if self.parts is None and self.given is not None and sum(map(len, self.given)) == len(Y):
            return [np.asarray(p) for p in self.given]
        D = np.array([cost(self.comps[k], Y).min(axis=0) for k in sorted(self.comps)])
        label = D.argmin(axis=0)
        return [np.nonzero(label == k)[0] for k in np.unique(label)]

    def accept_match(self, Y, out, where):
        parts = self.partition(Y)
        if out.shape != Y.shape:
            raise Violation("matched-shape", f"{where}: {out.shape} for {Y.shape}")
        taken = []
        owner = np.full(len(Y), -1)
        for part in parts:
            rows = out[part]
            k, pool, how = self.source(rows, len(part))
            if k is None:
                raise Violation("matched-elsewhere", f"{where}: {how}")
            if k in taken:
                raise Violation("component-shared", f"{where}: component {k} serves two parts")
            taken.append(k)
            best = cost(Y[part], rows)
            i, j = linear_sum_assignment(best)
            got, want = np.trace(best), best[i, j].sum()
            if got > want + 1e-9 * (1 + want):
                raise Violation("assignment-not-minimal", f"{where}: {got} instead of {want}")
            self.pools[k] = rows.copy()
            owner[part] = k
        if len(self.comps) > 1:
            # the components are those closest to the parts, all in all
            D = np.array([[cost(Y[part], self.comps[k]).min(axis=0).max() for k in sorted(self.comps)] for part in parts])
            i, j = linear_sum_assignment(D)
            got, want = sum(D[a, sorted(self.comps).index(owner[part[0]])] for a, part in enumerate(parts)), D[i, j].sum()
            if got > want + 1e-9 * (1 + want):
                raise Violation("component-assignment", f"{where}: {got} instead of {want}")
            self.probe("component-assignments-checked")
        if len(self.comps) > 1 and self.separated:
            # the parts belong to their component beyond doubt
            near = np.array([cost(self.base[k], Y).min(axis=0) for k in sorted(self.comps)]).argmin(axis=0)
            homes = [set(near[part]) for part in parts]
            if all(len(h) == 1 for h in homes) and len(set.union(*homes)) == len(parts):
                for part, (home,) in zip(parts, homes):
                    if owner[part[0]] != home:
                        raise Violation("wrong-component", f"{where}: points near component {home} matched to {owner[part[0]]}")
                self.probe("components-checked", len(parts))
        self.parts, self.matched, self.owner = parts, out.copy(), owner

    def source(self, rows, n):
        """the component whose (shifted) points the rows are: its clustering if it has one of that size, else the set"""
        if len({r.tobytes() for r in rows}) < len(rows):
            return None, None, "points used twice"
        why = "not points of the reference set"
        for k in sorted(self.comps):
            pool = self.pools.get(k)
            if pool is not None and len(pool) == n:
                if {r.tobytes() for r in pool} == {r.tobytes() for r in rows}:
                    return k, pool, ""
                if all(r.tobytes() in {c.tobytes() for c in self.comps[k]} for r in rows):
                    why = "the clustering was not kept"
            elif {r.tobytes() for r in rows} <= {c.tobytes() for c in self.comps[k]}:
                return k, self.comps[k], ""
        return None, None, why

    def shift(self, c, indices):
        if self.matched is None:
            for k in self.comps:
                self.comps[k] = self.comps[k] + c * self.eta[k]
            return
        for i in range(len(self.matched)) if indices is None else indices:
            k = self.owner[i]
            old = self.matched[i].tobytes()
            new = self.matched[i] + c * self.eta[k]
            pool = self.pools[k]
            j = next(j for j, r in enumerate(pool) if r.tobytes() == old)
            pool[j] = new
            self.matched[i] = new


def run(sim):
    from hvd.reference_set import ReferenceSet

    rng = sim.rng("data")
    m = 2 + sim.choose(2, "n_obj")
    n_comp = sim.pick([1, 2, 3], "components")
    separated = sim.flip(0.8, "separated")
    big = sim.flip(0.2, "equal-size")
    N = sim.integer(1, 7, "N")
    comps = {}
    for k in range(n_comp):
        centre = np.zeros(m) + (8.0 if separated else 0.4) * k * np.r_[1, -np.ones(m - 1)]
        n = N if (big and n_comp == 1) else N * (1 if n_comp > 1 else 1) + m + sim.choose(12, "size")
        comps[k] = centre + rng.rand(max(n, m + 1), m)
    if big and n_comp == 1:
        comps[0] = rng.rand(max(N, m), m)
    given_eta = sim.flip(0.7, "given-eta")
    # directions are given for each component, by name or as rows of an array, or one for all
    form = sim.weighted([("dict", 3), ("rows", 1), ("one", 1)], "eta-form") if given_eta else None
    eta = {k: -rng.rand(m) for k in comps} if given_eta else None
    if form == "one":
        eta = {k: eta[0] for k in eta}

    def population(n):
        if separated and n_comp > 1:
            where = rng.randint(n_comp, size=n)
            return np.array([comps[k][rng.randint(len(comps[k]))] for k in where]) + rng.rand(n, m) * 1.0
        return rng.rand(n, m) * 1.5 + 0.2

    given = None
    if n_comp > 1 and sim.flip(0.3, "given-partition"):
        cut = sorted(rng.permutation(np.arange(1, N))[: min(n_comp - 1, N - 1)])
        order = rng.permutation(N)
        given = [np.sort(p) if sim.flip(0.5, "sorted") else p for p in np.split(order, cut)]
    caller = dict(ref={k: v.copy() for k, v in comps.items()}, eta=None if eta is None else {k: v.copy() for k, v in eta.items()}, parts=None if given is None else [p.copy() for p in given])
    if form in ("rows", "one"):
        caller["eta"] = np.array([eta[k] for k in sorted(eta)]) if form == "rows" else eta[0].copy()
    arg = (caller["ref"][0] if n_comp == 1 and sim.flip(0.5, "array") else caller["ref"])
    make = lambda: ReferenceSet(ref=arg, eta=caller["eta"], Y_idx=caller["parts"])
    rs, twin = make(), ReferenceSet(ref={k: v.copy() for k, v in comps.items()}, eta=eta, Y_idx=given)
    if eta is None:
        eta = {k: np.array(v) for k, v in rs.eta.items()}
        for v in eta.values():
            if abs(np.linalg.norm(v) - 1) > 1e-9 or np.any(v > 0):
                raise Violation("direction", f"{v}")
    model = Model(comps, eta, given)
    model.base, model.separated, model.probe = comps, separated, sim.probe
    sim.sample.update(m=m, components=n_comp, N=N, sizes=[len(c) for c in comps.values()])
    calls, calm = Calls(sim), Calls(sim, latency=False)
    for _ in range(sim.integer(0, 3, "n-faults")):
        site, at = sim.pick(SITES, "site"), sim.choose(12, "at")
        calls.plan[(site, at)] = sim.pick(["error", "memory", "interrupt"], "kind")
    sim.cover(m, n_comp, N, separated, big, given is not None, tuple(sorted(calls.plan.items())))
    from contextlib import contextmanager

    active = {"calls": calls}

    class Router:
        def enter(self, site, x=None):
            return active["calls"].enter(site, x)

        def throw(self, site, kind):
            active["calls"].throw(site, kind)

    def quietly(f):
        active["calls"] = calm
        try:
            return f()
        finally:
            active["calls"] = calls

    def look(where):
        got = np.array(rs.reference_set)
        want = model.view()
        if got.shape != want.shape or not np.array_equal(got, want):
            raise Violation("points-differ", f"{where}: {got[:3].tolist()} instead of {want[:3].tolist()}")
        other = np.array(twin.reference_set)
        if other.shape != got.shape or not np.array_equal(other, got):
            raise Violation("history-dependent", f"{where}: differs from a set that saw no failures")
        if rs.N != len(want):
            raise Violation("size", f"{where}: {rs.N} instead of {len(want)}")

    copies = []
    with kernels(Router(), SITES):
        look("at the start")
        Y = population(N)
        for step in range(sim.integer(1, 10, "n-steps")):
            op = sim.weighted([("match", 5), ("match-via-indicator", 2), ("shift", 4), ("no-rematch", 1), ("resize", 1), ("copy", 1)], "op")
            sim.cover(op)
            where = f"step {step} ({op})"
            if op == "resize" and given is None:
                Y = population(sim.integer(1, N, "new-N"))
                op = "match"
            if op in ("match", "match-via-indicator", "resize"):
                if sim.flip(0.7, "moved"):
                    Y = Y + rng.randn(*Y.shape) * 0.2
                before = Y.copy()
                if op == "match-via-indicator":
                    from hvd.delta_p import InvertedGenerationalDistance

                    indicator = InvertedGenerationalDistance(rs, lambda x: x, None, None, matching=True)
                    action = lambda: indicator.compute(Y=Y)
                else:
                    action = lambda: rs.match(Y)
                fired = len(calls.fired)
                try:
                    action()
                except INJECTED as e:
                    sim.probe("failed-matchings")
                    if len(calls.fired) == fired:
                        raise Violation("failure-reported-late", repr(e)) from e
                    look(where + " failed")
                    continue
                except AssertionError:
                    # a part too large for its component is refused
                    if n_comp == 1 or max(map(len, model.partition(Y))) <= min(map(len, comps.values())):
                        raise
                    sim.probe("refused")
                    look(where + " refused")
                    continue
                if len(calls.fired) > fired:
                    raise Violation("failure-swallowed", f"{where}: {calls.fired[-1]}")
                if not np.array_equal(before, Y):
                    raise Violation("input-modified", where)
                quietly(lambda: twin.match(Y))
                model.accept_match(Y, np.array(rs.reference_set), where)
                sim.probe("matchings-checked")
            elif op == "no-rematch":
                if model.matched is not None:
                    rs.re_match = False
                    rs.match(Y + 1.0)
                    rs.re_match = True
            elif op == "shift":
                c = sim.pick([0.05, 0.08, 0.5, -0.1], "c")
                indices = None
                if model.matched is not None:
                    how = sim.choose(3, "which")
                    if how:
                        mask = rng.rand(len(model.matched)) < 0.5
                        indices = np.nonzero(mask)[0] if how == 1 else np.nonzero(mask)[0][::-1]
                for r in (rs, twin):
                    r.shift(c, indices)
                model.shift(c, indices)
                sim.probe("shifts-checked")
            elif op == "copy":
                other = deepcopy(rs)
                if sim.flip(0.5, "use-copy"):
                    rs, other = other, rs
                copies.append((other, np.array(other.reference_set)))
            look(where)
        for other, was in copies:
            if not np.array_equal(other.reference_set, was):
                raise Violation("copy-changed", "a copy follows the original")
        same = all(np.array_equal(caller["ref"][k], comps[k]) for k in comps) and set(caller["ref"]) == set(comps)
        if caller["eta"] is not None:
            same &= all(np.array_equal(caller["eta"] if form == "one" else caller["eta"][k], eta[k]) for k in eta)
        if given is not None:
            same &= all(np.array_equal(a, b) for a, b in zip(caller["parts"], given))
        if not same:
            raise Violation("input-modified", "the caller's components, directions or partition")
    sim.log("end", np.array(rs.reference_set))
