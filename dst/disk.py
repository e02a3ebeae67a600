"""Simulated disk: what is on it after a crash, and how it fails.

Files live in a scratch directory, so every read-only operation is the real one.  The operations that change files there
are intercepted (`open`, `os.open/write/close/fsync/replace/rename/unlink/...`) and do two things: they may fail or crash
as the seed says, and they maintain a model of what would survive a power failure:

* data written since the last fsync of a file survives as an arbitrary subset of the writes, each possibly torn,
* creations, renames and removals survive as a prefix of those since the last fsync of the directory,
* data and names are independent of each other (no "ordered" mode).

`crash()` replaces the directory's contents by what survived.
"""

import builtins
import errno
import io
import os
import shutil
import tempfile
from contextlib import contextmanager

from .core import Violation

_real = {}
for _n in ("open", "close", "write", "fsync", "fdatasync", "replace", "rename", "unlink", "remove", "link", "ftruncate", "truncate", "sync", "dup", "pwrite", "writev", "sendfile"):
    if hasattr(os, _n):
        _real[_n] = getattr(os, _n)
_real_io_open = io.open


class Crash(BaseException):
    """the machine stops"""


class Inode:
    def __init__(self, number, durable=b""):
        self.number = number
        self.data = bytearray(durable)  # what programs see
        self.durable = bytes(durable)
        self.pending = []  # ("write", offset, bytes) | ("truncate", size)


def _apply(data, op):
    data = bytearray(data)
    if op[0] == "truncate":
        size = op[1]
        if size < len(data):
            del data[size:]
        else:
            data.extend(bytes(size - len(data)))
    else:
        _, offset, chunk = op
        if offset > len(data):
            data.extend(bytes(offset - len(data)))
        data[offset : offset + len(chunk)] = chunk
    return bytes(data)


FAULTS = {
    "open": ["EACCES", "ENOSPC", "EMFILE", "EIO", "interrupt", "crash"],
    "opendir": ["EACCES", "EMFILE", "interrupt", "crash"],
    "write": ["ENOSPC", "EIO", "short", "torn", "interrupt", "crash"],
    "fsync": ["EIO", "ENOSPC", "lost", "interrupt", "crash"],
    "fsyncdir": ["EIO", "interrupt", "crash"],
    "rename": ["EIO", "EACCES", "ENOSPC", "interrupt", "crash"],
    "unlink": ["EACCES", "interrupt", "crash"],
    "close": ["EIO", "crash"],
    "read": ["EIO", "EMFILE", "interrupt"],
}


class Disk:
    def __init__(self, sim, interrupt=KeyboardInterrupt):
        self.sim = sim
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="dst-disk-"))
        self.names = {}  # volatile: path -> Inode
        self.durable_names = {}
        self.pending_names = []  # ("set", path, inode) | ("del", path)
        self.fds = {}  # fd -> Inode | directory path
        self.offsets = {}
        self.count = 0
        self.ops = 0
        self.faults = FAULTS
        self.plan = {}  # operation index -> index of the fault
        self.fired = []
        self.fired_at = []  # path or inode of each of them
        self.interrupt = interrupt
        self.dead = False
        self.epoch = 0  # files of earlier ones have been closed
        self.chunk = 1 << 20
        self.trace = []

    def path(self, name):
        return os.path.join(self.root, name)

    def inside(self, file):
        if isinstance(file, int) or file is None:
            return None
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(file)))
        except TypeError:
            return None
        # the last component itself is not resolved
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    # -- faults --------------------------------------------------------------------------------------------
    def operation(self, kind, what=""):
        """-> fault to apply by the caller (short, torn, lost) or None; raises the others"""
        if self.dead:
            raise Crash()
        i = self.ops
        self.ops += 1
        self.sim.clock += 1e-3
        self.trace.append(kind)
        if self.ops > 20_000:
            raise Violation("no-progress", "20000 disk operations")
        if i not in self.plan:
            return None
        faults = self.faults[kind]
        fault = faults[self.plan[i] % len(faults)]
        self.fired.append((i, kind, fault))
        self.fired_at.append(what)
        self.sim.fault(f"{kind}:{fault}")
        if fault == "crash":
            self.dead = True
            raise Crash()
        if fault == "interrupt":
            raise self.interrupt("injected")
        if fault in ("short", "torn", "lost"):
            return fault
        if fault in ("EIO",) and kind == "fsync":
            return "failed-fsync"
        raise OSError(getattr(errno, fault), f"injected {fault}", what if isinstance(what, str) else "")

    # -- model -----------------------------------------------------------------------------------------------
    def inode(self, path, create=False):
        node = self.names.get(path)
        if node is None and (create or os.path.exists(path)):
            self.count += 1
            node = Inode(self.count)
            if os.path.exists(path):
                with _real_io_open(path, "rb") as f:
                    node.data[:] = f.read()
            self.set_name(path, node)
        return node

    def set_name(self, path, node):
        self.names[path] = node
        self.pending_names.append(("set", path, node))

    def del_name(self, path):
        self.names.pop(path, None)
        self.pending_names.append(("del", path))

    def change(self, node, op):
        node.data[:] = _apply(node.data, op)
        node.pending.append(op)

    def sync_file(self, node, fault=None):
        if fault in ("lost", "failed-fsync"):
            # the error is reported (or not), and the pages are marked clean: some of them never reach the disk
            for op in node.pending:
                if self.sim.flip(0.5, "page-written"):
                    node.durable = _apply(node.durable, op)
            node.pending = []
        if fault == "failed-fsync":
            raise OSError(errno.EIO, "injected EIO")
        if fault == "lost":  # a disk that lies is not something a program can protect against: reported here
            raise OSError(errno.EIO, "injected EIO")
        node.durable = bytes(node.data)
        node.pending = []

    def sync_names(self):
        for op in self.pending_names:
            self._apply_name(self.durable_names, op)
        self.pending_names = []

    @staticmethod
    def _apply_name(names, op):
        if op[0] == "set":
            names[op[1]] = op[2]
        elif op[0] == "move":
            names.pop(op[1], None)
            names[op[2]] = op[3]
        else:
            names.pop(op[1], None)

    def crash(self, clean=False):
        """power failure (or, if `clean`, an end of the process that the machine survives), then restart"""
        if clean:
            for node in dict.fromkeys(self.names.values()):
                self.sync_file(node)
            self.sync_names()
        n = self.sim.choose(len(self.pending_names) + 1, "names-survive")
        for op in self.pending_names[:n]:
            self._apply_name(self.durable_names, op)
        for node in dict.fromkeys(self.durable_names.values()):
            for op in node.pending:
                how = self.sim.choose(3, "write-survives")  # 0: lost, 1: complete, 2: torn
                if how == 0:
                    continue
                if how == 2 and op[0] == "write":
                    op = ("write", op[1], op[2][: self.sim.choose(len(op[2]) + 1, "torn-at")])
                node.durable = _apply(node.durable, op)
            node.data[:] = node.durable
            node.pending = []
        self.pending_names = []
        self.names = dict(self.durable_names)
        for fd in list(self.fds):
            try:
                _real["close"](fd)
            except OSError:
                pass
        self.fds.clear()
        self.epoch += 1
        for folder, _, files in os.walk(self.root):
            for entry in files:
                _real["unlink"](os.path.join(folder, entry))
        for path, node in self.names.items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with _real_io_open(path, "wb") as f:
                f.write(node.data)
        self.dead = False
        self.sim.probe("crash-recoveries")

    def remove(self):
        for fd in list(self.fds):
            try:
                _real["close"](fd)
            except OSError:
                pass
        self.fds.clear()
        self.epoch += 1
        assert os.path.basename(self.root).startswith("dst-disk-")
        shutil.rmtree(self.root, ignore_errors=True)

    # -- intercepted operations ----------------------------------------------------------------------------
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.inside(path) if dir_fd is None else None
        if p is None:
            return _real["open"](path, flags, mode, dir_fd=dir_fd)
        if os.path.isdir(p):
            self.operation("opendir", p)
            fd = _real["open"](path, flags, mode)
            self.fds[fd] = p
            return fd
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        self.operation("open" if writing else "read", p)
        existed = os.path.exists(p)
        fd = _real["open"](path, flags, mode)
        node = self.inode(p, create=True) if writing or existed else None
        if existed and flags & os.O_TRUNC and node.data:
            self.change(node, ("truncate", 0))
        self.fds[fd] = node
        self.offsets[fd] = flags & os.O_APPEND
        return fd

    def os_close(self, fd):
        if fd in self.fds:
            target = self.fds.pop(fd)
            _real["close"](fd)
            if not isinstance(target, str) and not self.dead:
                self.operation("close")
            return
        _real["close"](fd)

    def os_write(self, fd, data):
        node = self.fds.get(fd)
        if not isinstance(node, Inode):
            return _real["write"](fd, data)
        data = bytes(data)[: self.chunk]
        fault = self.operation("write", node)
        if fault == "torn" or fault == "short":
            data = data[: self.sim.choose(len(data), "short-at")]
        offset = len(node.data) if self.offsets.get(fd) else os.lseek(fd, 0, os.SEEK_CUR)
        n = _real["write"](fd, data) if data else 0
        if n:
            self.change(node, ("write", offset, data[:n]))
        if fault == "torn" or (fault == "short" and not data):
            raise OSError(errno.ENOSPC, "injected ENOSPC after a part was written")
        return n

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        target = self.fds.get(fd)
        if target is None:
            return _real["fsync"](fd)
        if isinstance(target, str):
            self.operation("fsyncdir")
            self.sync_names()
        else:
            self.sync_file(target, self.operation("fsync"))

    def os_sync(self):
        self.operation("fsync")
        for node in dict.fromkeys(self.names.values()):
            self.sync_file(node)
        self.sync_names()

    def os_ftruncate(self, fd, length):
        node = self.fds.get(fd)
        if isinstance(node, Inode):
            self.operation("write")
            self.change(node, ("truncate", length))
        return _real["ftruncate"](fd, length)

    def os_rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None, name="rename"):
        a, b = self.inside(src), self.inside(dst)
        if (a is None and b is None) or src_dir_fd is not None or dst_dir_fd is not None:
            return _real[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        self.operation("rename", a)
        node = self.inode(a) if a else None
        _real[name](src, dst)
        if a and b:
            self.names.pop(a, None)
            self.names[b] = node
            self.pending_names.append(("move", a, b, node))
        elif a:
            self.del_name(a)
        else:
            self.names.pop(b, None)
            self.inode(b)

    def os_replace(self, src, dst, **kw):
        return self.os_rename(src, dst, name="replace", **kw)

    def os_unlink(self, path, *, dir_fd=None):
        p = self.inside(path) if dir_fd is None else None
        if p is None:
            return _real["unlink"](path, dir_fd=dir_fd)
        self.operation("unlink", p)
        _real["unlink"](path)
        self.del_name(p)

    def os_link(self, src, dst, **kw):
        a, b = self.inside(src), self.inside(dst)
        if a is None or b is None:
            return _real["link"](src, dst, **kw)
        self.operation("rename", a)
        _real["link"](src, dst, **kw)
        self.set_name(b, self.inode(a))

    def io_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        elif self.inside(file) is None:
            return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimRaw(self, file, mode.replace("t", "").replace("b", ""), closefd, opener)
        if buffering == 0:
            return raw
        size = min(self.chunk, 8192) if buffering in (-1, 1) else buffering
        size = max(size, 16)
        if "+" in mode:
            buffered = io.BufferedRandom(raw, size)
        elif raw.readable():
            buffered = io.BufferedReader(raw)
        else:
            buffered = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buffered
        text = io.TextIOWrapper(buffered, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    @contextmanager
    def mounted(self):
        names = {
            "open": self.os_open, "close": self.os_close, "write": self.os_write, "fsync": self.os_fsync,
            "fdatasync": self.os_fsync, "rename": self.os_rename, "replace": self.os_replace, "unlink": self.os_unlink,
            "remove": self.os_unlink, "link": self.os_link, "ftruncate": self.os_ftruncate, "sync": self.os_sync,
        }
        import numpy.lib._datasource as ds
        import pandas.io.common  # noqa: F401

        ds._file_openers._load()
        openers = ds._file_openers._file_openers
        before, sendfile = openers[None], shutil._USE_CP_SENDFILE
        try:
            shutil._USE_CP_SENDFILE = False
            for name, f in names.items():
                setattr(os, name, f)
            builtins.open = io.open = openers[None] = self.io_open
            yield self
        finally:
            builtins.open = io.open = _real_io_open
            openers[None] = before
            shutil._USE_CP_SENDFILE = sendfile
            for name in names:
                setattr(os, name, _real[name])


class SimRaw(io.RawIOBase):
    def __init__(self, disk, file, mode, closefd, opener):
        self._disk = disk
        self._epoch = disk.epoch
        self._closefd = closefd
        self.mode = mode + "b"
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self.name = file
        if isinstance(file, int):
            self._fd = file
            return
        flags = os.O_CLOEXEC
        flags |= os.O_RDWR if self._r and self._w else (os.O_WRONLY if self._w else os.O_RDONLY)
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        if "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if "x" in mode:
            flags |= os.O_CREAT | os.O_EXCL
        self._fd = opener(file, flags) if opener else disk.os_open(file, flags, 0o666)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def write(self, data):
        return self._disk.os_write(self._fd, data)

    def readinto(self, buffer):
        n = len(buffer)
        if self._disk.operation("read") == "short":
            n = 1 + self._disk.sim.choose(max(n // 64, 1), "read-size")
        data = os.read(self._fd, n)
        buffer[: len(data)] = data
        return len(data)

    def seek(self, offset, whence=0):
        return os.lseek(self._fd, offset, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self._disk.os_ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        if self._closefd and self._epoch == self._disk.epoch:
            self._disk.os_close(self._fd)
