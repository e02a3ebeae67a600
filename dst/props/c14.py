"""C14: loading the archive of an evolutionary run gives data that belong together, or an error.

The archives live on the simulated disk: files are missing, empty, cut off where a crash tore the write, zero-filled,
or fail while being read.  The oracle reads the same bytes with a parser of its own and recomputes what they mean."""

import gc
import os

import numpy as np
from scipy.spatial import cKDTree

from .. import world
from ..core import SimInterrupt, Violation
from ..disk import Disk
from ..evo import own_random, seeded

READ_FAULTS = {"read": ["EIO", "EMFILE", "EACCES", "ESTALE", "interrupt", "short"], "close": ["EIO"]}


def setup():
    world.import_hvd()
    import scripts.utils  # noqa: F401
    import hvd.reference_set  # noqa: F401


class Corrupt(Exception):
    pass


def text(rows, style):
    if style == 0:
        return "".join(",".join(repr(v) for v in r) + "\n" for r in rows)
    return "\n".join(",".join(f"{v:.17g}" for v in r) for r in rows)  # no newline at the end of the file


def parse(data, allow_nan=False):
    """-> table of numbers, None when there is nothing in the file, or Corrupt"""
    rows = [line for line in data.decode("latin1").split("\n") if line != ""]
    if not rows:
        return None
    out = []
    for row in rows:
        try:
            fields = [v.split("\0")[0] for v in row.split(",")]  # zeros end a field
            out.append([float(v) if v != "" else np.nan for v in fields])
        except ValueError as e:
            raise Corrupt() from e
    m = len(out[0])
    if any(len(r) > m for r in out):
        raise Corrupt()
    out = np.array([r + [np.nan] * (m - len(r)) for r in out])
    if not allow_nan and not np.all(np.isfinite(out)):
        raise Corrupt()
    return out


class Archive:
    def __init__(self, sim, disk, name, run, gen):
        self.disk, self.name, self.run, self.gen = disk, name, run, gen
        rng = sim.rng("archive")
        self.files = {}
        m = self.m = 2 + sim.choose(3, "n_obj")
        d = 1 + sim.choose(4, "n_var")
        K = self.K = sim.weighted([(1, 3), (2, 4), (3, 3), (4, 1)], "components")
        n = sim.integer(1, 12, "N")
        sizes = [sim.integer(2, 12, "component-size") for _ in range(K)]
        if sim.flip(0.03, "large"):
            sizes[sim.choose(K, "which")] = sim.pick([2999, 3000, 3001, 3100], "large-size")
        style = sim.choose(2, "style")
        ids = np.concatenate([np.full(s, i + 1) for i, s in enumerate(sizes)])
        if sim.flip(0.5, "shuffled"):
            rng.shuffle(ids)
        pre = f"{name}_NSGA_run_{run}"
        self.put(f"{pre}_component_id_gen{gen}.csv", text([list(map(int, ids))], style))
        optional = sim.flip(0.6, "complete")
        for i in range(K):
            r = rng.uniform(0, 1, (sizes[i], m)) + 1.5 * i
            file = f"{pre}_ref_gen{gen}.csv" if K == 1 else f"{pre}_ref_{i + 1}_gen{gen}.csv"
            if optional or not sim.flip(0.3, "component-missing"):
                self.put(file, text(r, style))
            how = 0 if optional else sim.choose(4, "direction")
            eta = -rng.dirichlet(np.ones(m))
            if how == 3:
                eta[sim.choose(m, "nan")] = np.nan
            if how != 1:
                rows = [[v] for v in eta] if sim.flip(0.3, "column") else [list(eta)]
                self.put(f"{pre}_eta_{i + 1}_gen{gen}.csv", b"" if how == 2 else text(rows, style))
        self.put(f"{pre}_lastpopu_x_gen{gen}.csv", text(rng.uniform(0, 1, (n, d)), style))
        self.put(f"{pre}_lastpopu_y_gen{gen}.csv", text(rng.uniform(0, 1 + K, (n, m)), style))
        pattern = sim.choose(4, "labels")
        if pattern == 0:
            labels = np.arange(n) % K + 1
        elif pattern == 1:
            labels = rng.randint(1, K + 1, n)
        elif pattern == 2:
            labels = rng.choice([-1, 0] + list(range(1, K + 1)), n)
        else:  # more clusters than components, and numbers left out
            labels = rng.choice([-1, 1, 2, K, K + 2], n)
        labels = labels.astype(int)
        rows = [[int(v)] for v in labels] if sim.flip(0.5, "label-column") else [list(map(int, labels))]
        self.put(f"{pre}_lastpopu_labels_gen{gen}.csv", text(rows, style))
        # torn writes, lost files
        for _ in range(sim.weighted([(0, 6), (1, 4), (2, 1)], "n-damaged")):
            file = sim.pick(sorted(self.files), "damaged-file")
            data = self.files[file]
            kind = sim.pick(["lost", "torn", "torn", "empty", "zeros", "garbage", "short-row", "long-row", "joined-rows"], "damage")
            at = sim.choose(len(data) + 1, "at")
            sim.fault("file:" + kind)
            if kind == "lost":
                del self.files[file]
            elif kind == "empty":
                self.files[file] = b""
            elif kind == "torn":
                self.files[file] = data[:at]
            elif kind == "zeros":
                self.files[file] = data[:at] + bytes(len(data) - at)
            elif kind == "garbage":
                self.files[file] = data[:at] + b"#x" + data[at:]
            elif kind == "long-row":
                ends = [i for i in range(len(data)) if data[i : i + 1] == b"\n"] or [len(data)]
                at = ends[at % len(ends)]
                self.files[file] = data[:at].rstrip(b"\r") + b",0.5" + data[at:]
            elif kind == "joined-rows":
                at = data.find(b"\n", at)
                self.files[file] = data if at < 0 else data[:at].rstrip(b"\r") + data[at + 1 :]
            else:
                self.files[file] = data + b"0.5" if data.endswith(b"\n") else data + b"\n0.5"
        for file, data in self.files.items():
            with open(disk.path(file), "wb") as f:
                f.write(data)
        self.key = (m, d, K, n, tuple(sizes), pattern, optional)

    def put(self, file, data):
        self.files[file] = data if isinstance(data, bytes) else data.encode()

    def load(self):
        from scripts.utils import read_reference_set_data

        return read_reference_set_data(self.disk.root, self.name, "NSGA", self.run, self.gen)

    def required(self, file):
        out = parse(self.files[file]) if file in self.files else None
        if out is None:
            raise Corrupt()
        return out

    def expected(self):
        """what the documentation of the loader says, from the bytes on the disk"""
        pre = f"{self.name}_NSGA_run_{self.run}"
        tail = f"_gen{self.gen}.csv"
        K = len(np.unique(self.required(f"{pre}_component_id{tail}")[0]))
        comps, etas = [], []
        for i in range(K):
            file = f"{pre}_ref{tail}" if K == 1 else f"{pre}_ref_{i + 1}{tail}"
            if file not in self.files:
                continue
            comps.append(self.required(file))
            file = f"{pre}_eta_{i + 1}{tail}"
            e = None
            if not (len(etas) and etas[0] is None) and file in self.files:  # without the first, none is used
                e = parse(self.files[file], allow_nan=True)
            etas.append(e.ravel() if e is not None else (etas[-1] if etas else None))
        if not comps:
            raise Corrupt()
        if etas[0] is None or any(np.any(np.isnan(e)) for e in etas):
            etas = None
        x, y = self.required(f"{pre}_lastpopu_x{tail}"), self.required(f"{pre}_lastpopu_y{tail}")
        labels = self.required(f"{pre}_lastpopu_labels{tail}").ravel()
        if not len(x) == len(y) == len(labels):
            raise Corrupt()
        m = y.shape[1]
        if any(c.shape[1] != m for c in comps) or etas is not None and any(e.size != m for e in etas):
            raise Corrupt()
        keep = (labels != -1) & (labels != 0)
        if not keep.any():
            raise Corrupt()
        return comps, etas, x[keep], y[keep], labels[keep]


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind in "fiu" and np.allclose(a.astype(float), b.astype(float), rtol=1e-12, atol=1e-300)


def rows_of(a, b):
    """-> for every row of `a` the row of `b` it is, each taken once; None if there is none"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.ndim != 2 or a.shape[1] != b.shape[1]:
        return None
    d, i = cKDTree(b).query(a)
    return i if np.all(d < 1e-9) and len(set(i.tolist())) == len(i) else None


def check(sim, a, out, where):
    comps, etas, x, y, labels = a.expected()
    ref, x0, y0, Y_idx, eta = out
    sizes = [min(len(c), 3000) for c in comps]
    values, counts = np.unique(labels, return_counts=True)
    merged = len(values) > len(comps) or counts.max() > min(sizes)
    if sorted(ref) != list(range(len(ref))):
        raise Violation("component-numbers", f"{where}: {sorted(ref)}")
    if merged:
        if len(ref) != 1:
            raise Violation("not-merged", f"{where}: {len(ref)} components, {len(values)} clusters of up to {counts.max()}, components of {sizes}")
        if len(ref[0]) != sum(sizes) or rows_of(ref[0], np.concatenate(comps)) is None:
            raise Violation("components", f"{where}: merged reference set of {len(ref[0])} instead of {sum(sizes)}")
        if max(map(len, comps)) < 3000 and not close(ref[0], np.concatenate(comps)):
            raise Violation("components", f"{where}: order changed by merging")
        if eta is not None:
            raise Violation("directions", f"{where}: directions of the components kept for the merged set")
        n = min(len(x), sum(sizes))
        x, y, labels = x[:n], y[:n], np.zeros(n)
        sim.probe("merged")
    else:
        if len(ref) != len(comps):
            raise Violation("components", f"{where}: {len(ref)} instead of {len(comps)}")
        for i, (c, s) in enumerate(zip(comps, sizes)):
            if len(ref[i]) != s or (rows_of(ref[i], c) is None if len(c) >= 3000 else not close(ref[i], c)):
                raise Violation("components", f"{where}: component {i} is not that of the archive: {ref[i]} instead of {c}")
        if (eta is None) != (etas is None):
            raise Violation("directions", f"{where}: {eta} instead of {etas}")
        if eta is not None:
            if sorted(eta) != sorted(ref):
                raise Violation("directions", f"{where}: {sorted(eta)} for {sorted(ref)}")
            for i, e in enumerate(etas):
                if not close(eta[i], e):
                    raise Violation("directions", f"{where}: component {i} has {eta[i]} instead of {e}")
    if not close(x0, x) or not close(y0, y):
        raise Violation("population", f"{where}: {x0} {y0} instead of {x} {y}")
    want = sorted(tuple(np.nonzero(labels == v)[0].tolist()) for v in np.unique(labels))
    got = sorted(tuple(np.asarray(i).tolist()) for i in Y_idx)
    if want != got:
        raise Violation("partition", f"{where}: {got} instead of {want}")
    # it can be matched, clusters within components
    from hvd.reference_set import ReferenceSet

    if sum(map(len, ref.values())) < 500:
        rs = ReferenceSet(ref=ref, eta=eta, Y_idx=Y_idx)
        rs.match(np.array(y0, float))
        R = np.asarray(rs.reference_set)
        i = rows_of(R, np.concatenate(comps)) if R.shape == (len(y), y.shape[1]) else None
        if i is None:
            raise Violation("not-matched", f"{where}: {R} not of the reference set")
        home = np.zeros(len(i)) if merged else np.repeat(np.arange(len(comps)), [len(c) for c in comps])[i]
        if any(len(set(home[list(c)])) > 1 for c in want):
            raise Violation("not-matched", f"{where}: a cluster was matched across components")
        sim.probe("matched")
    sim.absorb(np.asarray(x0, float))
    sim.probe("loaded")


def run(sim):
    disk = Disk(sim, interrupt=SimInterrupt)
    disk.faults = {**disk.faults, **READ_FAULTS}
    seed = sim.choose(1 << 20, "random-seed")
    try:
        with own_random(seeded(seed)):
            archives = [Archive(sim, disk, *k) for k in [("P", 1, 0), ("P", 1, 10), ("PP", 11, 1)][: 1 + sim.choose(3, "archives")]]
            sim.cover(*(a.key for a in archives))
            with disk.mounted():
                error = None
                for step in range(sim.integer(1, 4, "loads")):
                    a = sim.pick(archives, "archive")
                    disk.plan = {}
                    if error is not None:  # files an earlier load left open are closed now, not during this one
                        out = error = None
                        gc.collect()
                    if sim.flip(0.4, "faults"):
                        for _ in range(sim.integer(1, 2, "n-faults")):
                            disk.plan[disk.ops + sim.choose(26, "at")] = sim.choose(60, "kind")
                    fired = len(disk.fired)
                    where = f"load {step}, {a.name} {a.run} {a.gen}"
                    out = error = None
                    try:
                        out = a.load()
                    except SimInterrupt as e:
                        error = e
                    except Exception as e:
                        error = e
                    loud = [f for f in disk.fired[fired:] if f[2] != "short"]
                    for f in disk.fired[fired:]:
                        sim.log("disk", *f)
                    try:
                        want = a.expected()
                    except Corrupt:
                        want = None
                    if error is None:
                        if loud:
                            raise Violation("failure-swallowed", f"{where}: {loud}")
                        if want is None:
                            raise Violation("silently-different", f"{where}: {sizes(out)} from damaged files")
                        disk.plan = {}
                        check(sim, a, out, where)
                        # what the caller does with the result is its own business
                        for v in out[0].values():
                            v *= 0
                        out[1][...] = 0
                        out[2][...] = 0
                    elif loud:
                        if not (isinstance(error, SimInterrupt) or "injected" in str(error)) and want is not None:
                            raise Violation("failure-changed", f"{where}: {error!r}")
                        sim.probe("failed-loads")
                    elif want is not None:
                        raise Violation("refused", f"{where}: {error!r}") from error
                    else:
                        sim.probe("corrupt-refused")
    finally:
        disk.remove()
    sim.log("end")


def sizes(out):
    return {k: v.shape for k, v in out[0].items()}, out[1].shape, out[2].shape
