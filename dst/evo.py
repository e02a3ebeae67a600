"""Simulated problems and random streams for the evolutionary algorithms on pymoo."""

import random
from contextlib import contextmanager

import numpy as np
from pymoo.core.problem import Problem as PymooProblem

from .world import CALLBACK_FAULTS

KINDS = sorted(CALLBACK_FAULTS)


class EvoProblem(PymooProblem):
    """quadratic objectives, linear/quadratic constraints; evaluations are observed and can fail, before, between or
    after the rows of a batch"""

    def __init__(self, sim, calls, n_var=None, n_obj=None, n_ieq=0, n_eq=0, spread=1.0):
        rng = sim.rng("evo-problem")
        n_obj = n_obj or 2 + sim.choose(2, "n_obj")
        n_var = n_var or sim.integer(1, 4, "n_var")
        self.C = rng.uniform(0, 1, (n_obj, n_var)) * spread
        self.w = rng.uniform(0.5, 2.0, n_obj)
        self.g_lin, self.g_b = rng.randn(max(n_ieq, 1), n_var), rng.uniform(-1.2, 0.6, max(n_ieq, 1))
        self.h_lin, self.h_b = rng.randn(max(n_eq, 1), n_var), rng.uniform(-0.2, 0.2, max(n_eq, 1))
        # values on a grid: ties and duplicates
        self.grid = sim.pick([0, 0, 0, 4], "grid")
        self.calls = calls
        self.seen = []  # rows whose evaluation has completed
        self.batches = []  # size of each batch asked for
        super().__init__(n_var=n_var, n_obj=n_obj, n_ieq_constr=n_ieq, n_eq_constr=n_eq, xl=np.zeros(n_var), xu=np.ones(n_var))

    def pure(self, X):
        X = np.atleast_2d(X)
        F = np.sum((X[:, None] - self.C[None]) ** 2, axis=2) * self.w
        if self.grid:
            F = np.round(F * self.grid) / self.grid
        out = {"F": F}
        if self.n_ieq_constr:
            out["G"] = X @ self.g_lin.T - self.g_b
        if self.n_eq_constr:
            out["H"] = (X @ self.h_lin.T - self.h_b) * 0.3
        return out

    def violation(self, X):
        """total constraint violation, as pymoo defines it by default"""
        out = self.pure(X)
        cv = np.zeros(len(np.atleast_2d(X)))
        if "G" in out:
            cv = cv + np.maximum(out["G"], 0).sum(axis=1)
        if "H" in out:
            cv = cv + np.maximum(np.abs(out["H"]) - 1e-4, 0).sum(axis=1)
        return cv

    def _evaluate(self, X, out, *args, **kwargs):
        self.batches.append(len(X))
        for x in X:
            self.calls.callback("evaluate", x)
        values = self.pure(X)
        self.calls.callback("evaluated", None)
        out.update(values)
        self.seen += [x.copy() for x in X]

    # the problem belongs to the user: copies share it
    def __deepcopy__(self, memo):
        return self


def global_random():
    return random.getstate(), np.random.get_state()


@contextmanager
def own_random(stream):
    """let the code inside use its own global random streams: `stream` = [state], updated on exit"""
    before = global_random()
    random.setstate(stream[0][0])
    np.random.set_state(stream[0][1])
    try:
        yield
    finally:
        stream[0] = global_random()
        random.setstate(before[0])
        np.random.set_state(before[1])


def seeded(seed):
    before = global_random()
    random.seed(seed)
    np.random.seed(seed)
    out = [global_random()]
    random.setstate(before[0])
    np.random.set_state(before[1])
    return out


def snapshot(pop):
    """decision vectors, objective values and violations of a population, in its order"""
    return np.array([ind.X for ind in pop], dtype=float), np.array([ind.F for ind in pop], dtype=float)
