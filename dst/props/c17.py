"""C17: each record reaches every sink that was requested for its logger exactly once, in the format of its level.

Files live on the simulated disk and the console is a simulated stream, so both fail as the seed says; threads request
loggers and log at the same time, preempted inside of the package's formatter and handler set-up."""

import io
import logging
import os
import re
import sys
import time
import types

import numpy as np

from .. import world
from ..core import SimInterrupt, Violation
from ..disk import Disk
from ..threads import Scheduler
from ..world import Calls, Scenario, iterate

LEVELS = [logging.INFO, logging.DEBUG, logging.WARNING, logging.ERROR, logging.CRITICAL, 25, 5]
NAMES = ["DpN", "DpN.inner", "HVN", "hvd", "a.b.c"]
TIME = r"\d\d/\d\d/\d{4} \d\d:\d\d:\d\d,\d+"
HERE = re.escape(os.path.abspath(__file__))
DISK_FAULTS = {
    "open": ["EACCES", "ENOSPC", "EMFILE", "EIO", "EISDIR", "EROFS", "interrupt"],
    "opendir": ["EACCES"],
    "write": ["ENOSPC", "EIO", "short", "interrupt"],
    "read": ["EIO"], "fsync": ["EIO"], "fsyncdir": ["EIO"], "rename": ["EIO"], "unlink": ["EACCES"], "close": ["EIO"],
}


def setup():
    world.import_hvd()
    import hvd.gradient_based  # noqa: F401
    import hvd.mmd_newton  # noqa: F401
    import hvd.utils  # noqa: F401


class Console(io.TextIOBase):
    """where standard output goes: a terminal or pipe that fails now and then"""

    def __init__(self, sim):
        self.sim, self.parts, self.plan, self.ops, self.fired = sim, [], {}, 0, 0

    def text(self):
        return "".join(self.parts)

    def operation(self, what):
        i = self.ops
        self.ops += 1
        kind = self.plan.get(i)
        if kind is None:
            return
        self.fired += 1
        self.sim.fault(f"console-{what}:{kind}")
        raise {
            "EPIPE": BrokenPipeError(32, "injected"), "ENOSPC": OSError(28, "injected"), "EAGAIN": BlockingIOError(11, "injected"),
            "closed": ValueError("I/O operation on closed file"), "memory": MemoryError("injected"),
            "encoding": UnicodeEncodeError("ascii", "x", 0, 1, "injected"), "interrupt": SimInterrupt("injected"),
        }[kind]

    def write(self, text):
        self.operation("write")
        self.parts.append(text)
        return len(text)

    def flush(self):
        self.operation("flush")

    def writable(self):
        return True


class Ctx:
    """the world of one run, with what must be in every sink"""

    def __init__(self, sim):
        self.sim = sim
        self.disk = Disk(sim, interrupt=SimInterrupt)
        self.disk.faults = DISK_FAULTS
        self.console = Console(sim)
        self.sinks = {}  # (name, "console" | path) -> "yes" | "maybe"
        self.records = []  # (token, name, level, {sink: "one" | "maybe"}, line, extra)
        self.n = 0
        self.faulty = set()
        self.before = {}

    def faults(self):
        """sink -> number of failures"""
        out = {"console": self.console.fired}
        for at in self.disk.fired_at:
            paths = [at] if isinstance(at, str) else [p for p, node in list(self.disk.names.items()) if at is node]
            for path in paths:
                out[path] = out.get(path, 0) + 1
        return out


def request(ctx, name, files, console, alone=True):
    """`files`: [(path, spelling)]"""
    from hvd.utils import get_logger

    kw = {}
    if files:
        spelled = [s for _, s in files]
        kw["file"] = spelled[0] if len(spelled) == 1 and ctx.sim.flip(0.7, "string") else spelled
    if console or ctx.sim.flip(0.5, "explicit"):
        kw["console"] = console
    keys = ([(name, "console")] if console else []) + [(name, p) for p, _ in files]
    before = ctx.faults()
    fired = len(ctx.disk.fired)
    try:
        logger = get_logger(name, **kw)
    except SimInterrupt:
        for k in keys:
            ctx.sinks.setdefault(k, "maybe")
        return None
    except Exception as e:
        raise Violation("request-failed", f"get_logger({name!r}, {kw}) raised {e!r}") from e
    if alone and any(f[2] == "interrupt" for f in ctx.disk.fired[fired:]):
        raise Violation("interrupt-swallowed", f"get_logger({name!r}, {kw})")
    after = ctx.faults()
    for k in keys:
        opened = k[1] == "console" or (os.path.isdir(os.path.dirname(k[1])) and not os.path.isdir(k[1]))
        if not opened:
            continue
        if k[1] != "console" and after.get(k[1], 0) > before.get(k[1], 0):  # could not be opened just now
            ctx.sinks.setdefault(k, "maybe")
        else:
            ctx.sinks[k] = "yes"
    return logger


def send(ctx, name, level, style, logger=None):
    sim = ctx.sim
    token = f"<{ctx.n}>"
    ctx.n += 1
    logger = logger or logging.getLogger(name)
    targets = {}
    for (n, sink), state in list(ctx.sinks.items()):
        if n == name and level >= (logging.INFO if sink == "console" else logging.DEBUG):
            targets[sink] = "one" if state == "yes" else "maybe"
    record = [token, name, level, targets, None, None]
    ctx.records.append(record)
    before = ctx.faults()
    nested = []
    try:
        if style == 1:
            record[4] = sys._getframe().f_lineno + 1
            logger.log(level, "value %s and %d", token, 5)
            record[5] = rf"value {re.escape(token)} and 5"
        elif style == 2:
            try:
                raise KeyError("cause " + token)
            except KeyError:
                record[4] = sys._getframe().f_lineno + 1
                logger.log(level, "failed", exc_info=True)
            record[5] = "failed"
        elif style == 3:  # an argument that logs while it is being formatted

            class Value:
                def __str__(self):
                    if not nested:
                        nested.append(1)
                        send(ctx, name, sim.pick(LEVELS, "inner-level"), 0, logger)
                    return token

            record[4] = sys._getframe().f_lineno + 1
            logger.log(level, "nested %s", Value())
            record[5] = rf"nested {re.escape(token)}"
        else:
            record[4] = sys._getframe().f_lineno + 1
            logger.log(level, "message " + token)
            record[5] = rf"message {re.escape(token)}"
    except SimInterrupt:
        for sink in targets:
            targets[sink] = "maybe"
        record[5] = None
    except Exception as e:
        raise Violation("logging-failed", f"{name} {logging.getLevelName(level)}: {e!r}") from e
    finally:
        after = ctx.faults()
        for sink in after:
            if after[sink] > before.get(sink, 0):
                ctx.faulty.add(sink)
                if sink in targets:
                    targets[sink] = "maybe"


def expected(level, name, line, message):
    head = rf"{TIME} - \[{re.escape(name)}\.{re.escape(logging.getLevelName(level))}\]"
    if level in (logging.DEBUG, logging.ERROR):
        return rf"{head} \{{{HERE}:{line}\}} -- {message}"
    if level == logging.INFO:
        return rf"{head} -- {message}"
    if level == logging.WARNING:
        return rf"{head} \{{{re.escape(name)}\}} -- {message}"
    return rf"{TIME} - {re.escape(logging.getLevelName(level))} -- {message}"


def check(ctx, where):
    texts = {"console": ctx.console.text()}
    for path in sorted({s for _, s in ctx.sinks if s != "console"} | set(ctx.before)):
        data = b""
        if os.path.isfile(path):
            with io.FileIO(path) as f:
                data = f.read()
        old = ctx.before.get(path, b"")
        if not data.startswith(old):
            raise Violation("file-overwritten", f"{where}: {os.path.basename(path)} had {old!r} and has {data[:80]!r}")
        texts[path] = data[len(old):].decode()
    for sink, text in texts.items():
        name_of = "console" if sink == "console" else os.path.basename(sink)
        lines = text.split("\n")
        total = 0
        for token, name, level, targets, line, message in ctx.records:
            n = text.count(token)
            want = targets.get(sink)
            what = f"{where}: {logging.getLevelName(level)} record of {name}"
            if n > 1:
                raise Violation("repeated", f"{what} is {n} times in {name_of}")
            if want is None and n:
                raise Violation("wrong-sink", f"{what} is in {name_of}, which was not requested for it")
            if want == "one" and not n:
                raise Violation("lost", f"{what} is not in {name_of}")
            total += n
            if n and sink not in ctx.faulty and message is not None:
                i = [k for k, x in enumerate(lines) if token in x][0]
                if message == "failed":  # followed by the traceback
                    while i and not lines[i].endswith("failed"):
                        i -= 1
                if not re.fullmatch(expected(level, name, line, message), lines[i]):
                    raise Violation("format", f"{what} in {name_of}: {lines[i]!r}")
                ctx.sim.probe("formats-checked")
        if sink not in ctx.faulty and text and not text.endswith("\n"):
            raise Violation("line-end", f"{where}: {name_of}")
    ctx.sim.probe("checks")


def plan_faults(ctx):
    sim = ctx.sim
    n = sim.weighted([(0, 4), (1, 3), (2, 2), (4, 1)], "n-faults")
    for _ in range(n):
        if sim.flip(0.5, "console-fault"):
            ctx.console.plan[ctx.console.ops + sim.choose(16, "at")] = sim.pick(
                ["EPIPE", "ENOSPC", "EAGAIN", "closed", "memory", "encoding", "interrupt"], "kind"
            )
        else:
            ctx.disk.plan[ctx.disk.ops + sim.choose(16, "at")] = sim.choose(7, "kind")


class Cleanup:
    """loggers are process-wide: each run starts without those of the package"""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        manager = logging.Logger.manager
        self.real = sys.stdout, sys.stderr, dict(manager.loggerDict), logging.lastResort
        for name in NAMES + ["DpN", "HVN", "MMDNewton", "Lara"]:
            manager.loggerDict.pop(name, None)
        self.known = set(manager.loggerDict)
        sim, real = self.sim, time

        def now():  # the time of day in the log
            sim.clock += 0.013
            return 1.75e9 + sim.clock

        logging.time = types.SimpleNamespace(time=now, localtime=real.gmtime, gmtime=real.gmtime, strftime=real.strftime)
        logging.lastResort = None
        return self

    def __exit__(self, *_):
        manager = logging.Logger.manager
        logging.time = time
        sys.stdout, sys.stderr = self.real[:2]
        logging.lastResort = self.real[3]
        for name in [n for n in manager.loggerDict if n not in self.known]:
            logger = manager.loggerDict.pop(name)
            for h in list(getattr(logger, "handlers", [])):
                try:
                    logger.removeHandler(h)
                    h.close()
                except (Exception, SimInterrupt):
                    pass


def run(sim):
    ctx = Ctx(sim)
    try:
        with Cleanup(sim), ctx.disk.mounted():
            sys.stdout, sys.stderr = ctx.console, io.StringIO()
            if sim.flip(0.12, "optimizers"):
                optimizers(sim, ctx)
            else:
                loggers(sim, ctx)
    finally:
        ctx.disk.plan, ctx.console.plan = {}, {}
        ctx.disk.remove()


def loggers(sim, ctx):
    names = [sim.pick(NAMES, "name") for _ in range(sim.integer(1, 3, "n-names"))]
    os.mkdir(ctx.disk.path("sub"))
    paths = [ctx.disk.path(p) for p in ("x.log", "sub/y.log", "z.log", "missing/w.log", "sub")]
    if sim.flip(0.4, "existing"):
        with io.FileIO(paths[0], "w") as f:
            f.write(b"earlier <999> line\n")
        ctx.before[paths[0]] = b"earlier <999> line\n"

    def some_files():
        n = sim.weighted([(0, 3), (1, 4), (2, 2), (3, 1)], "n-files")
        out = []
        for _ in range(n):
            p = paths[sim.weighted([(0, 5), (1, 3), (2, 2), (3, 1), (4, 1)], "file")]
            how = sim.choose(4, "spelling")
            s = p
            if how == 1:
                s = os.path.relpath(p)
            elif how == 2:
                s = os.path.join(os.path.dirname(p), ".", os.path.basename(p))
            elif how == 3:
                s = os.path.join(ctx.disk.root, "sub", os.path.relpath(p, os.path.join(ctx.disk.root, "sub")))
            out.append((p, s))
        return out

    formatters = []
    steps = []
    for step in range(sim.integer(2, 10, "steps")):
        what = sim.weighted([("send", 6), ("request", 5), ("threads", 2), ("faults", 2), ("formatter", 1)], "step")
        name = sim.pick(names, "which")
        where = f"step {step}, {what}"
        if what == "send":
            level, style = sim.pick(LEVELS, "level"), sim.choose(4, "style")
            if not any(n == name for n, _ in ctx.sinks):
                continue  # not a logger of the package yet
            send(ctx, name, level, style)
            steps.append((name, level, style))
        elif what == "request":
            files, console = some_files(), sim.flip(0.5, "console")
            request(ctx, name, files, console)
            ctx.sinks.setdefault((name, "none"), "yes")
            steps.append((name, len(files), console))
        elif what == "formatter":
            from hvd.utils import LoggerFormatter

            fmt = sim.pick(["A %(message)s", "B %(levelname)s %(message)s"], "fmt")
            formatters.append((LoggerFormatter(fmt), fmt))
        elif what == "faults":
            plan_faults(ctx)
        else:
            steps.append(threads(ctx, names, some_files))
        ctx.sinks = {k: v for k, v in ctx.sinks.items()}
        drop = [k for k in ctx.sinks if k[1] == "none"]
        none = {k: ctx.sinks.pop(k) for k in drop}
        for r in ctx.records:
            r[3].pop("none", None)
        check(ctx, where)
        ctx.sinks.update(none)
        for f, fmt in formatters:
            record = logging.LogRecord("n", logging.CRITICAL, "p", 1, "text", None, None)
            if f.format(record) != fmt.replace("%(levelname)s", "CRITICAL").replace("%(message)s", "text"):
                raise Violation("format", f"{where}: a formatter made with {fmt!r} gives {f.format(record)!r}")
    sim.cover(*steps, tuple(sorted(ctx.sim.faults)))
    sim.sample.update(names=names, steps=[str(s) for s in steps])
    sim.log("end", *steps)


def threads(ctx, names, some_files):
    sim = ctx.sim
    plans = []
    for t in range(sim.integer(2, 3, "n-threads")):
        plan = []
        for _ in range(sim.integer(1, 3, "n-ops")):
            name = sim.pick(names, "which")
            if sim.flip(0.5, "request"):
                plan.append(("request", name, some_files(), sim.flip(0.6, "console")))
            else:
                plan.append(("send", name, sim.pick(LEVELS, "level"), sim.choose(2, "style")))
        plans.append(plan)
    # a record that is sent while its logger gets another sink may or may not reach that one
    changing = {(op[1], sink) for plan in plans for op in plan if op[0] == "request"
                for sink in [p for p, _ in op[2]] + (["console"] if op[3] else [])} - set(k for k, v in ctx.sinks.items() if v == "yes")
    known = {n for n, _ in ctx.sinks}
    first = len(ctx.records)

    def body(plan):
        def f():
            mine = set(known)
            for op in plan:
                if op[0] == "request":
                    request(ctx, *op[1:], alone=False)
                    mine.add(op[1])
                elif op[1] in mine:
                    send(ctx, *op[1:])

        return f

    scheduler = Scheduler(sim, eagerness=4, through=[logging])
    locked = []
    for name in set(names):
        for h in logging.getLogger(name).handlers if name in known else []:
            h.acquire()
            h.release()
            locked.append((h, h.lock))
            from ..threads import SimLock

            h.lock = SimLock(scheduler, True)
    results = scheduler.run([body(p) for p in plans])
    for h, lock in locked:
        h.lock = lock
    for _, e in results:
        if e is not None:
            raise e
    for r in ctx.records[first:]:
        for name, sink in changing:
            if name == r[1] and r[2] >= (logging.INFO if sink == "console" else logging.DEBUG):
                r[3][sink] = "maybe"
    for name in {op[1] for plan in plans for op in plan if op[0] == "request"}:
        ctx.sinks.setdefault((name, "none"), "yes")
    sim.probe("concurrent-histories")
    return tuple(tuple(op[:2]) for p in plans for op in p)


def optimizers(sim, ctx):
    """what optimizers print goes to the console once each, and a broken console does not change what they compute"""
    s = Scenario(sim, [("DpN", 5), ("HVN", 4), ("Lara", 3)], max_iters=(1, 3), n_max=3, n_var_max=3)
    n = sim.integer(1, 3, "instances")
    seen = []
    real = logging.Logger.callHandlers

    def spy(self, record):
        seen.append((self.name, record.levelno, record.getMessage()))
        return real(self, record)

    def trajectory(verbose, faults=False):
        try:
            opt = s.build(Calls(sim, latency=False), verbose=verbose)
            for _ in range(s.max_iters):
                if faults:
                    plan_faults(ctx)
                    ctx.console.plan = {k: v for k, v in ctx.console.plan.items() if v != "interrupt"}
                iterate(opt)
                opt.log()
        except np.linalg.LinAlgError:
            return None
        return np.array(opt.state.X), np.array(opt.state.Y)

    base = trajectory(False)
    if base is None:
        return
    logging.Logger.callHandlers = spy
    try:
        for k in range(n):
            start, before = len(ctx.console.parts), len(seen)
            faults = sim.flip(0.5, "faults")
            fired = ctx.console.fired
            got = trajectory(True, faults)
            ctx.console.plan = {}
            ctx.disk.plan = {}
            if got is None or not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(base, got)):
                raise Violation("computation-affected", f"instance {k} of {s.kind}, faults {faults}")
            lines = "".join(ctx.console.parts[start:]).split("\n")
            expect = [m for _, level, m in seen[before:] if level >= logging.INFO]
            text = "\n".join(x.split(" -- ", 1)[-1] for x in lines)
            if ctx.console.fired == fired:
                if text != "".join(m + "\n" for m in expect):
                    raise Violation("optimizer-output", f"instance {k} of {s.kind}: {text!r} instead of {expect}")
                if not expect:
                    raise Violation("optimizer-output", f"instance {k} of {s.kind} is verbose and silent")
            sim.probe("optimizer-outputs")
    finally:
        logging.Logger.callHandlers = real
    sim.cover("optimizers", *s.key())
    sim.log("optimizers", n)
