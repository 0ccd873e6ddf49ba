"""In-memory file system with a durable and a cached view, and injected faults.

All simulated files live under ROOT.  Every call a task makes is a seam call:
it can be delayed, fail, or be the point where the process is killed.  Written
data is cached until fsync (or a random flush) and a crash keeps only what the
fault schedule says reached the disk.
"""
import errno
import io
import os
import posixpath
import stat as statmod

from .core import HarnessError, SimKilled, current_task

ROOT = "/sim"


def _err(num, path):
    return OSError(num, os.strerror(num), path)


class Node:
    __slots__ = ("data", "durable", "mtime", "ino", "name_durable")

    def __init__(self, data=b"", durable=True, ino=0):
        self.data = bytes(data)
        self.durable = self.data if durable else b""
        self.name_durable = durable
        self.mtime = 0
        self.ino = ino


class Fault:
    """One planned disk fault.

    kind: ENOENT EACCES EIO EMFILE ESTALE (at open), read_eio (at read),
    trunc (content cut at arg), zero (tail zero-filled from arg), slow (arg us),
    enospc / write_eio (write fails after arg bytes), kill (process dies at this call).
    match: substring of the path, ops: set of seam ops, when: active [t0,t1) in us, or
    count: how many times it fires (-1 = always).
    """
    __slots__ = ("kind", "match", "t0", "t1", "count", "arg", "fired", "skip", "op")

    def __init__(self, spec):
        self.kind = spec["kind"]
        self.match = spec.get("match", "")
        self.t0 = spec.get("t0", 0)
        self.t1 = spec.get("t1", 1 << 62)
        self.count = spec.get("count", -1)
        self.skip = spec.get("skip", 0)
        self.arg = spec.get("arg", 0)
        self.op = spec.get("op")
        self.fired = 0

    def hit(self, path, now, op):
        if self.match not in path or not (self.t0 <= now < self.t1):
            return False
        if self.op is not None and self.op != op:
            return False
        if self.skip > 0:
            self.skip -= 1
            return False
        if self.count == 0:
            return False
        if self.count > 0:
            self.count -= 1
        self.fired += 1
        return True


OPEN_ERRNO = {"ENOENT": errno.ENOENT, "EACCES": errno.EACCES, "EIO": errno.EIO, "EMFILE": errno.EMFILE,
              "ENFILE": errno.ENFILE, "ESTALE": getattr(errno, "ESTALE", 116), "EISDIR": errno.EISDIR,
              "ENOMEM": errno.ENOMEM}


class VFS:
    def __init__(self, world=None):
        self.world = world
        self.files = {}
        self.dirs = {ROOT}
        self.faults = []
        self.perm_seed = None      # readdir order
        self.ino = 10
        self.opens = 0
        self.reads = 0
        self.writes = 0
        self.lists = 0
        self.stray = []            # attempted writes outside ROOT
        self.open_handles = 0
        self.read_lat_us = 0
        self.encoding = "utf-8"    # of text files opened without saying which: the locale of the host
        self.fds = {}
        self.oplog = None          # list of (op, path) when recording

    # -- set-up
    def put(self, path, data):
        self.ino += 1
        self.files[path] = Node(data, True, self.ino)
        self._mkdirs(posixpath.dirname(path))

    def _mkdirs(self, path):
        while path not in self.dirs and path.startswith(ROOT):
            self.dirs.add(path)
            path = posixpath.dirname(path)

    def snapshot(self):
        return {p: n.data for p, n in self.files.items()}

    # -- helpers
    def _now(self):
        return self.world.sim.now_us if self.world is not None else 0

    def seam(self, op, path):
        "Every file operation passes here: latency, stalls, process kills."
        task = current_task()
        if self.oplog is not None:
            self.oplog.append((op, path))
        if task is None:
            return
        if task.killed:                 # a dead process does nothing any more (finally blocks run, calls do not)
            raise SimKilled()
        task.io_n += 1
        for f in self.faults:
            if f.kind == "slow" and f.hit(path, self._now(), op):
                self.world.count("disk_slow")
                task.faults.append((f.kind, path, op))
                task.sim.sleep_us(f.arg)
            elif f.kind == "kill" and f.hit(path, self._now(), op):
                self.world.count("kill_at_io")
                self.world.crash_at(task, f.arg)
        if self.read_lat_us:
            task.sim.sleep_us(self.read_lat_us)

    def faulted(self, path, kinds, op):
        for f in self.faults:
            if f.kind in kinds and f.hit(path, self._now(), op):
                self.world.count("disk_" + f.kind)
                task = current_task()
                if task is not None:
                    task.faults.append((f.kind, path, op))
                return f
        return None

    def crash(self, keep):
        """Lose un-synced state.  keep(path, node) -> bytes that survive, or None if the name is lost."""
        for path in sorted(self.files):
            node = self.files[path]
            if node.data is not node.durable or not node.name_durable:
                data = keep(path, node)
                if data is None:
                    del self.files[path]
                    continue
                node.data = node.durable = data
                node.name_durable = True

    # -- calls
    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **_kw):
        binary = "b" in mode
        writing = any(c in mode for c in "wax+")
        self.opens += 1
        self.seam("open", path)
        f = self.faulted(path, OPEN_ERRNO, "open")
        if f is not None:
            raise _err(OPEN_ERRNO[f.kind], path)
        if path in self.dirs:
            raise _err(errno.EISDIR, path)
        node = self.files.get(path)
        if not writing:
            if node is None:
                raise _err(errno.ENOENT, path)
            data = node.data
            f = self.faulted(path, ("trunc", "zero", "garble"), "open")
            if f is not None:
                cut = min(f.arg % (len(data) + 1), len(data))
                if f.kind == "trunc":
                    data = data[:cut]
                elif f.kind == "zero":
                    data = data[:cut] + b"\0" * (len(data) - cut)
                else:
                    data = data[:cut] + bytes([(data[cut] ^ 0xff)]) + data[cut + 1:] if cut < len(data) else data
            raw = ReadFile(self, path, data)
            if binary and buffering == 0:
                return raw
            buf = io.BufferedReader(raw)
            if binary:
                return buf
            return io.TextIOWrapper(buf, encoding=encoding or self.encoding, errors=errors, newline=newline)
        parent = posixpath.dirname(path)
        if parent not in self.dirs:
            raise _err(errno.ENOENT, path)
        if "x" in mode and node is not None:
            raise _err(errno.EEXIST, path)
        if "r" in mode and node is None:
            raise _err(errno.ENOENT, path)
        if node is None:
            self.ino += 1
            node = Node(b"", False, self.ino)
            self.files[path] = node
        elif "w" in mode:
            node.data = b""
        pos = len(node.data) if "a" in mode else 0
        raw = WriteFile(self, path, node, pos, readable="+" in mode, append="a" in mode)
        if binary and buffering == 0:
            return raw
        buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding or self.encoding, errors=errors, newline=newline)

    def listdir(self, path):
        self.lists += 1
        self.seam("listdir", path)
        f = self.faulted(path, OPEN_ERRNO, "listdir")
        if f is not None:
            raise _err(OPEN_ERRNO[f.kind], path)
        if path not in self.dirs:
            raise _err(errno.ENOENT if path not in self.files else errno.ENOTDIR, path)
        pre = path.rstrip("/") + "/"
        names = {p[len(pre):].split("/", 1)[0] for p in self.files if p.startswith(pre)}
        names |= {p[len(pre):].split("/", 1)[0] for p in self.dirs if p.startswith(pre)}
        names = sorted(names)
        if self.perm_seed is not None:
            import random as _r
            _r.Random("readdir/%s/%s" % (self.perm_seed, path)).shuffle(names)
        return names

    def stat(self, path):
        self.seam("stat", path)
        f = self.faulted(path, OPEN_ERRNO, "stat")
        if f is not None:
            raise _err(OPEN_ERRNO[f.kind], path)
        if path in self.dirs:
            return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 4096, 0, 0, 0))
        node = self.files.get(path)
        if node is None:
            raise _err(errno.ENOENT, path)
        return os.stat_result((statmod.S_IFREG | 0o644, node.ino, 1, 1, 0, 0, len(node.data), node.mtime, node.mtime,
                               node.mtime))

    def remove(self, path):
        self.seam("unlink", path)
        f = self.faulted(path, OPEN_ERRNO, "unlink")
        if f is not None:
            raise _err(OPEN_ERRNO[f.kind], path)
        if path not in self.files:
            raise _err(errno.ENOENT, path)
        del self.files[path]

    def fsync(self, fd):
        f = self.fds[fd]
        self.seam("fsync", f.name)
        if self.faulted(f.name, ("EIO",), "fsync") is not None:
            raise _err(errno.EIO, f.name)
        f.node.durable = f.node.data
        f.node.name_durable = True

    def rename(self, src, dst):
        self.seam("rename", src)
        f = self.faulted(src, OPEN_ERRNO, "rename")
        if f is not None:
            raise _err(OPEN_ERRNO[f.kind], src)
        if src not in self.files:
            raise _err(errno.ENOENT, src)
        self.files[dst] = self.files.pop(src)

    def mkdir(self, path, exist_ok=False):
        self.seam("mkdir", path)
        if path in self.dirs:
            if exist_ok:
                return
            raise _err(errno.EEXIST, path)
        self._mkdirs(path)


class ReadFile(io.RawIOBase):
    def __init__(self, vfs, path, data):
        super().__init__()
        self.vfs = vfs
        self.name = path
        self.mode = "rb"
        self.data = data
        self.pos = 0
        vfs.open_handles += 1
        self._open = True

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, buf):
        self.vfs.reads += 1
        self.vfs.seam("read", self.name)
        f = self.vfs.faulted(self.name, ("read_eio",), "read")
        if f is not None:
            raise _err(errno.EIO, self.name)
        n = min(len(buf), len(self.data) - self.pos)
        if n <= 0:
            return 0
        if n > 1 and self.vfs.faulted(self.name, ("short_read",), "read") is not None:
            n = 1 + (n // 2)
        buf[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.data) + off)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        if self._open:
            self._open = False
            self.vfs.open_handles -= 1
        super().close()


class WriteFile(io.RawIOBase):
    def __init__(self, vfs, path, node, pos, readable=False, append=False):
        super().__init__()
        self.vfs = vfs
        self.name = path
        self.mode = "wb"
        self.node = node
        self.pos = pos
        self._r = readable
        self.append = append
        self.task = current_task()
        vfs.open_handles += 1
        self._open = True

    def writable(self):
        return True

    def readable(self):
        return self._r

    def seekable(self):
        return True

    def fileno(self):
        fd = 1_000_000 + self.node.ino
        self.vfs.fds[fd] = self
        return fd

    def write(self, data):
        data = bytes(data)
        if self.task is not None and self.task.killed:    # buffers of a dead process are lost
            return len(data)
        self.vfs.writes += 1
        self.vfs.seam("write", self.name)
        n = len(data)
        f = self.vfs.faulted(self.name, ("enospc", "write_eio", "short_write"), "write")
        if f is not None:
            if f.kind == "short_write":
                n = max(1, n // 2)
            else:
                n = min(n, f.arg)
        cur = self.node.data
        if self.append:
            self.pos = len(cur)
        if self.pos > len(cur):
            cur += b"\0" * (self.pos - len(cur))
        self.node.data = cur[:self.pos] + data[:n] + cur[self.pos + n:]
        self.pos += n
        if f is not None and f.kind != "short_write":
            raise _err(errno.ENOSPC if f.kind == "enospc" else errno.EIO, self.name)
        return n

    def readinto(self, buf):
        data = self.node.data[self.pos:self.pos + len(buf)]
        buf[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        self.node.data = self.node.data[:size].ljust(size, b"\0")
        return size

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.node.data) + off)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        if self._open:
            self._open = False
            self.vfs.open_handles -= 1
        super().close()


def resolve(path):
    "Map a path argument to a simulated absolute path, or None when it is a real path."
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        task = current_task()
        if task is None or task.cwd is None:
            return None
        p = posixpath.join(task.cwd, p)
    if p == ROOT or p.startswith(ROOT + "/"):
        return posixpath.normpath(p)
    # /sim/../x must not escape
    n = posixpath.normpath(p)
    if n.startswith(ROOT + "/"):
        return n
    return None


__all__ = ["VFS", "Fault", "ROOT", "resolve", "HarnessError"]
