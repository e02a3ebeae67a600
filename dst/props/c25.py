"""C25: a Pareto front that has to be downloaded is the published one, or an error is raised."""

import email.message
import io
import os
import urllib.error
import urllib.request

import numpy as np

from .. import world
from ..core import SimError, SimInterrupt, SimMemoryError, Violation
from ..disk import Crash, Disk
from ..threads import Scheduler

FILES = {"DTLZ5": "dtlz5-3d.pf", "DTLZ6": "dtlz6-3d.pf", "DTLZ7": "dtlz7-3d.pf"}
NETWORK = ["refused", "timeout", "404", "interrupt", "memory", "short", "reset", "stall", "cut-interrupt", "cut-memory", "power"]
SERVER = "http://simulated.invalid/data/"


def setup():
    world.import_hvd()
    import hvd.problems.dtlz  # noqa: F401
    import pymoo.util.remote  # noqa: F401


class Server:
    """answers requests; what goes wrong with each is planned by its number"""

    def __init__(self, sim, disk):
        self.sim, self.disk = sim, disk
        rng = np.random.RandomState(sim.choose(1000, "data"))
        self.text, self.published = {}, {}
        for name in FILES.values():
            rows = sim.pick([20, 1, 3, 150, 400], "rows")
            data = np.abs(rng.randn(rows, 3))
            text = io.StringIO()
            np.savetxt(text, data, fmt=sim.pick(["%.18e", "%.8e", "%.4f"], "format"))
            self.text[name] = text.getvalue().encode()
            self.published[name] = np.loadtxt(io.StringIO(text.getvalue()))
        self.requests = 0
        self.plan = {}
        self.scheduler = None
        self.fired = 0

    def pause(self):
        self.sim.clock += 0.01
        if self.scheduler is not None:
            self.scheduler.pause()
        if self.disk.dead:
            raise Crash()

    def strike(self, what):
        self.fired += 1
        self.sim.fault(f"network:{what}")

    def urlopen(self, url, data=None, *args, **kwargs):
        url = getattr(url, "full_url", url)
        number = self.requests
        self.requests += 1
        what = self.plan.get(number)
        self.sim.log("request", number, url, what)
        self.pause()
        if what in ("refused", "timeout", "404", "interrupt", "memory"):
            self.strike(what)
        if what == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(111, "injected"))
        if what == "timeout":
            raise urllib.error.URLError(TimeoutError("injected"))
        if what == "404":
            raise urllib.error.HTTPError(url, 404, "injected", email.message.Message(), None)
        if what == "interrupt":
            raise SimInterrupt("injected")
        if what == "memory":
            raise SimMemoryError("injected")
        name = url[len(SERVER) :].rpartition("/")[2] if url.startswith(SERVER + "pymoo/pf/") else None
        if name not in self.text:
            raise urllib.error.HTTPError(url, 404, "no such file", email.message.Message(), None)
        return Response(self, self.text[name], what)


class Response(io.RawIOBase):
    def __init__(self, server, body, what):
        self.server, self.body, self.what, self.at = server, body, what, 0
        self.cut = None
        if what in ("short", "reset", "stall", "cut-interrupt", "cut-memory", "power"):
            self.cut = server.sim.choose(len(body), "cut-at")
        self.block = server.sim.pick([1 << 20, 100, 1000], "block") if len(body) < 20_000 else 1 << 20
        self.headers = email.message.Message()
        self.status = self.code = 200
        # an answer without its length can only be complete: nothing could tell otherwise
        if self.cut is not None or not server.sim.flip(0.2, "without-length"):
            self.headers["Content-Length"] = str(len(body))

    def info(self):
        return self.headers

    def getcode(self):
        return self.status

    def readable(self):
        return True

    def read(self, n=-1):
        self.server.pause()
        end = len(self.body) if n is None or n < 0 else min(self.at + min(n, self.block), len(self.body))
        if self.cut is not None:
            end = min(end, self.cut)
            if self.at == self.cut:
                if self.what == "short":
                    if self.cut >= 0:
                        self.server.strike("short")
                        self.what = "ended"
                    return b""
                if self.what == "ended":
                    return b""
                self.server.strike(self.what)
                if self.what == "power":
                    self.server.disk.dead = True
                    raise Crash()
                raise {
                    "reset": ConnectionResetError(104, "injected"), "stall": TimeoutError("injected"),
                    "cut-interrupt": SimInterrupt("injected"), "cut-memory": SimMemoryError("injected"),
                }[self.what]
        out = self.body[self.at : end]
        self.at = end
        return out

    def readinto(self, buffer):
        data = self.read(len(buffer))
        buffer[: len(data)] = data
        return len(data)


def run(sim):
    import contextlib
    import tempfile

    import hvd.problems.dtlz as dtlz
    import pymoo.util.remote as remote

    disk = Disk(sim, SimInterrupt)
    disk.chunk = sim.pick([1 << 20, 512, 64, 4096], "chunk")
    server = Server(sim, disk)
    if sim.flip(0.3, "folder-exists"):
        os.makedirs(os.path.join(disk.root, "pymoo", "pf"))
    for _ in range(sim.integer(0, 3, "n-disk-faults")):
        at, what = sim.choose(60, "at"), sim.choose(6, "fault")
        for j in range(1 + 2 * (sim.choose(4, "burst") == 3)):
            disk.plan[at + j] = what
    for _ in range(sim.integer(0, 4, "n-network-faults")):
        server.plan[sim.choose(6, "request")] = sim.pick(NETWORK, "network-fault")
    sim.sample.update(disk=dict(disk.plan), network=dict(server.plan))
    sim.cover(disk.chunk, tuple(sorted(disk.plan.items())), tuple(sorted(server.plan.items())))
    problems = {n: getattr(dtlz, n)(n_var=sim.pick([11, 7], "n_var"), n_obj=3) for n in FILES}
    stored = set()

    def fetch(name):
        return problems[name].get_pareto_front()

    def check(name, front, where):
        want = server.published[FILES[name]]
        if not isinstance(front, np.ndarray) or front.shape != want.shape or not np.array_equal(front, want):
            raise Violation("not-the-published-front", f"{where}: {name}: {np.shape(front)} instead of {want.shape}")
        sim.probe("fronts-checked")

    def restart():
        disk.crash(clean=sim.flip(0.3, "process-only"))
        stored.clear()
        sim.log("restart")

    def strikes():
        return server.fired + len(disk.fired)

    def step(names, where):
        """fetch the fronts, concurrently if there are several -> whether the machine is still up"""
        before, requests = strikes(), server.requests
        if len(names) == 1:
            results = [attempt(lambda: fetch(names[0]))]
        else:
            server.scheduler = Scheduler(sim, eagerness=4, through=(remote, urllib.request, tempfile, contextlib))
            results = server.scheduler.run([lambda n=n: fetch(n) for n in names])
            server.scheduler = None
            sim.probe("concurrent-fetches")
        struck = strikes() > before
        for name, (front, e) in zip(names, results):
            if isinstance(e, Violation):
                raise e
            if e is None:
                check(name, front, where)
            elif not struck:
                raise Violation("failed-without-reason", f"{where}: {name}: {e!r}") from e
            else:
                sim.probe("failed-fetches")
            sim.log(where, name, type(e).__name__)
        if disk.dead:
            restart()
            return False
        known = all(n in stored for n in names)
        if known and server.requests != requests:
            raise Violation("downloaded-again", f"{where}: {names}")
        for name, (front, e) in zip(names, results):
            if e is None:
                stored.add(name)
                if sim.flip(0.5, "caller-writes") and front.flags.writeable:
                    front[...] = -1.0  # it belongs to the caller
        return True

    real, instance = urllib.request.urlopen, remote.Remote.__dict__["_Remote__instance"]
    try:
        urllib.request.urlopen = server.urlopen
        remote.Remote._Remote__instance = remote.Remote(SERVER, disk.root)
        with disk.mounted():
            for k in range(sim.integer(1, 6, "n-steps")):
                op = sim.weighted([("fetch", 5), ("concurrent", 4), ("crash", 1), ("other", 1)], "op")
                if op == "crash":
                    restart()
                elif op == "other":
                    other(sim, dtlz, server)
                else:
                    n = 1 if op == "fetch" else sim.integer(2, 3, "n-threads")
                    one = sim.pick(list(FILES), "front")
                    names = [one if sim.flip(0.7, "same") else sim.pick(list(FILES), "front") for _ in range(n)]
                    step(names, f"step {k}")
            # once nothing fails any more
            disk.plan.clear()
            server.plan.clear()
            for _ in range(2):
                for name in FILES:
                    step([name], "at the end")
            disk.crash(clean=True)
            for name in FILES:
                check(name, fetch(name), "after a restart")
            extra = [f for _, _, fs in os.walk(disk.root) for f in fs if f not in FILES.values()]
            sim.probe("leftover-files", len(extra))
    finally:
        urllib.request.urlopen = real
        remote.Remote._Remote__instance = instance
        disk.remove()
    sim.log("end", disk.ops, server.requests)


def attempt(f):
    try:
        return f(), None
    except BaseException as e:  # noqa: BLE001
        return None, e


def other(sim, dtlz, server):
    """there is no published front for another number of objectives"""
    before = server.requests
    p = getattr(dtlz, sim.pick(list(FILES), "front"))(n_var=sim.pick([11, 7], "n_var"), n_obj=sim.pick([2, 4], "n_obj"))
    front, e = attempt(p.get_pareto_front)
    if e is None and isinstance(front, np.ndarray):
        raise Violation("front-of-other-dimension", f"{front.shape} for {p.n_obj} objectives")
    if server.requests != before:
        sim.probe("requests-for-other-dimensions")
