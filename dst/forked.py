"""Run a simulation in a forked copy of this process: a fresh interpreter state for every run."""

import os
import pickle
import signal
import sys
import traceback

from .core import HangError, Skip, Violation

REPO = os.environ.get("HVD_REPO", "/repo")
FIELDS = ("choices", "labels", "clock", "faults", "probes", "events", "n_events", "sample", "_pos")


def forked(sim, function):
    """function(sim) in a child; what it does to `sim` and how it ends happens here"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(0)
        code = 1
        try:
            out = _child(sim, function)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError(f"the child ended with status {status}")
    fields, digest, state, outcome = pickle.loads(data)
    vars(sim).update(fields)
    sim._digest.update(digest)
    sim._state.update(state)
    if outcome is None:
        return
    if outcome[0] == "skip":
        raise Skip()
    if outcome[0] == "violation":
        raise Violation(outcome[1], outcome[2])
    raise RuntimeError(outcome[1])


def _child(sim, function):
    outcome = None
    try:
        function(sim)
    except Violation as v:
        outcome = ("violation", v.kind, v.message)
    except Skip:
        outcome = ("skip",)
    except HangError:
        raise
    except BaseException as e:  # noqa: BLE001
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames if f.filename.startswith(os.path.join(REPO, ""))]
        if inside:
            outcome = ("violation", f"unexpected-{type(e).__name__}-in-{inside[-1].name}", str(e)[:300] + traceback.format_exc()[-1500:])
        else:
            outcome = ("error", traceback.format_exc())
    fields = {k: vars(sim)[k] for k in FIELDS}
    return fields, sim.digest.encode(), sim.state_key.encode(), outcome
