"""Install the seams: clocks, sleep, randomness and file system calls.

Must be installed before any module of the code under test is imported.  Calls
made outside a simulated task (the harness itself, Python's import system) go
to the real functions.
"""
import builtins
import datetime as _dt
import io
import os
import posixpath
import random
import sys
import threading
import time
import types

from . import vfs as vfsmod
from .core import HarnessError, SimLock, current_task
from .vfs import resolve

REAL = types.SimpleNamespace(time=time.time, sleep=time.sleep, open=io.open, stat=os.stat, lstat=os.lstat,
                             listdir=os.listdir, scandir=os.scandir, remove=os.remove, rename=os.rename,
                             replace=os.replace, mkdir=os.mkdir, getcwd=os.getcwd, monotonic=time.monotonic,
                             perf_counter=time.perf_counter, gmtime=time.gmtime, localtime=time.localtime,
                             strftime=time.strftime, time_ns=time.time_ns, urandom=os.urandom, access=os.access,
                             fsync=os.fsync, chdir=os.chdir, makedirs=os.makedirs, unlink=os.unlink,
                             datetime=_dt.datetime, rmdir=os.rmdir, osopen=os.open, system=os.system)

_done = False


def _worker_clock(task):
    "The wall clock this task's worker sees, in us."
    sim = task.sim
    off = task.worker.clock_off(sim.now_us) if task.worker is not None else 0
    return sim.now_us + off


def s_time():
    task = current_task()
    if task is None:
        return REAL.time()
    us = _worker_clock(task)
    val = us / 1e6
    task.readings.append(val)
    task.sim.clock_events += 1
    return val


def s_time_ns():
    task = current_task()
    if task is None:
        return REAL.time_ns()
    us = _worker_clock(task)
    task.readings.append(us * 1000 / 1e9)       # as the code most likely converts it, half a unit off
    return us * 1000


def s_monotonic():
    task = current_task()
    if task is None:
        return REAL.monotonic()
    return (task.sim.now_us - task.sim.start_us) / 1e6 + 1000.0


def s_sleep(secs):
    task = current_task()
    if task is None:
        return REAL.sleep(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    us = int(secs * 1e6)
    if us < secs * 1e6:
        us += 1
    extra = 0
    if task.worker is not None:
        extra = task.worker.oversleep()
    task.sim.sleep_us(us + extra)
    return None


def s_gmtime(secs=None):
    if secs is None and current_task() is not None:
        secs = s_time()
    return REAL.gmtime(secs) if secs is not None else REAL.gmtime()


def s_localtime(secs=None):
    if secs is None and current_task() is not None:
        secs = s_time()
    return REAL.localtime(secs) if secs is not None else REAL.localtime()


def set_zone(tz):
    "The time zone of the simulated host (the real one of this process, so that every C-level conversion follows it)."
    if os.environ.get("TZ") != tz:
        os.environ["TZ"] = tz
        time.tzset()


def s_strftime(fmt, t=None):
    if t is None and current_task() is not None:
        t = s_localtime()
    return REAL.strftime(fmt, t) if t is not None else REAL.strftime(fmt)


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if current_task() is None:
            return REAL.datetime.now(tz)
        return REAL.datetime.fromtimestamp(s_time(), tz)

    @classmethod
    def utcnow(cls):
        if current_task() is None:
            return REAL.datetime.now(_dt.timezone.utc).replace(tzinfo=None)
        return REAL.datetime.fromtimestamp(s_time(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def s_open(file, mode="r", *args, **kw):
    task = current_task()
    if task is not None:
        path = resolve(file)
        if path is not None:
            names = ("buffering", "encoding", "errors", "newline", "closefd", "opener")
            for name, val in zip(names, args):
                kw[name] = val
            return task.sim.world.vfs.open(path, mode, **kw)
        if any(c in mode for c in "wax+") and not isinstance(file, int):
            task.sim.world.vfs.stray.append(str(file))
            raise PermissionError(13, "Permission denied (outside the simulated file system)", str(file))
        if not isinstance(file, int) and not _harmless(file):
            # reading the real disk from inside the simulation
            task.sim.world.vfs.stray.append("r:" + str(file))
            raise FileNotFoundError(2, "No such file or directory", str(file))
    return REAL.open(file, mode, *args, **kw)


def _harmless(path):
    path = str(path)
    return path.startswith((sys.prefix, sys.base_prefix, "/usr/lib", "/repo/", "/usr/share/zoneinfo", "/verif/", "/dev/"))


def _wrap1(name, real, meth):
    def fn(path=".", *args, **kw):
        task = current_task()
        if task is not None:
            p = resolve(path)
            if p is not None:
                return getattr(task.sim.world.vfs, meth)(p)
        return real(path, *args, **kw)
    fn.__name__ = name
    return fn


def _wrap1w(name, real, meth):
    def fn(path, *args, **kw):
        task = current_task()
        if task is not None:
            p = resolve(path)
            if p is not None:
                return getattr(task.sim.world.vfs, meth)(p)
            task.sim.world.vfs.stray.append("%s:%s" % (name, path))
            raise PermissionError(13, "Permission denied (outside the simulated file system)", str(path))
        return real(path, *args, **kw)
    fn.__name__ = name
    return fn


def _wrap2(name, real):
    def fn(src, dst, **kw):
        task = current_task()
        if task is not None:
            a, b = resolve(src), resolve(dst)
            if a is None or b is None:
                task.sim.world.vfs.stray.append("%s:%s->%s" % (name, src, dst))
                raise PermissionError(13, "Permission denied (outside the simulated file system)", str(dst))
            return task.sim.world.vfs.rename(a, b)
        return real(src, dst, **kw)
    return fn


class _DirEntry:
    def __init__(self, world, parent, name):
        self.name = name
        self.path = posixpath.join(parent, name)
        self._w = world

    def is_dir(self, *, follow_symlinks=True):
        return self.path in self._w.vfs.dirs

    def is_file(self, *, follow_symlinks=True):
        return self.path in self._w.vfs.files

    def is_symlink(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._w.vfs.stat(self.path)

    def __fspath__(self):
        return self.path


def s_scandir(path="."):
    task = current_task()
    if task is not None:
        p = resolve(path)
        if p is not None:
            w = task.sim.world
            return _ScanIter(w, p)
    return REAL.scandir(path)


class _ScanIter:
    def __init__(self, world, path):
        self._it = iter([_DirEntry(world, path, n) for n in world.vfs.listdir(path)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def s_getcwd():
    task = current_task()
    if task is not None and task.cwd is not None:
        return task.cwd
    return REAL.getcwd()


def s_chdir(path):
    task = current_task()
    if task is not None:
        p = resolve(path)
        if p is None:
            raise PermissionError(13, "Permission denied", str(path))
        task.cwd = p
        return None
    return REAL.chdir(path)


def s_urandom(n):
    task = current_task()
    if task is None:
        return REAL.urandom(n)
    return bytes(task.sim.world.prng.randrange(256) for _ in range(n))


def s_access(path, mode, **kw):
    task = current_task()
    if task is not None:
        p = resolve(path)
        if p is not None:
            return p in task.sim.world.vfs.files or p in task.sim.world.vfs.dirs
    return REAL.access(path, mode, **kw)


def s_osopen(path, flags, *a, **kw):
    if current_task() is not None:
        if resolve(path) is not None:
            raise HarnessError("os.open on a simulated path is not modelled: %s" % path)
    return REAL.osopen(path, flags, *a, **kw)


def s_fsync(fd):
    task = current_task()
    if task is not None:
        v = task.sim.world.vfs
        n = fd if isinstance(fd, int) else fd.fileno()
        if n in v.fds:
            return v.fsync(n)
    return REAL.fsync(fd)


def s_system(cmd):
    if current_task() is not None:
        raise HarnessError("os.system inside the simulation")
    return REAL.system(cmd)


def install():
    global _done
    if _done:
        return
    _done = True
    time.time = s_time
    time.time_ns = s_time_ns
    time.monotonic = s_monotonic
    time.perf_counter = s_monotonic
    time.sleep = s_sleep
    time.gmtime = s_gmtime
    time.localtime = s_localtime
    time.strftime = s_strftime
    _dt.datetime = SimDatetime
    builtins.open = s_open
    io.open = s_open
    os.stat = _wrap1("stat", REAL.stat, "stat")
    os.lstat = _wrap1("lstat", REAL.lstat, "stat")
    os.listdir = _wrap1("listdir", REAL.listdir, "listdir")
    os.scandir = s_scandir
    os.remove = _wrap1w("remove", REAL.remove, "remove")
    os.unlink = os.remove
    os.mkdir = _wrap1w("mkdir", REAL.mkdir, "mkdir")
    os.rmdir = _wrap1w("rmdir", REAL.rmdir, "remove")
    os.rename = _wrap2("rename", REAL.rename)
    os.replace = _wrap2("replace", REAL.replace)
    os.getcwd = s_getcwd
    os.chdir = s_chdir
    os.access = s_access
    os.urandom = s_urandom
    os.open = s_osopen
    os.system = s_system
    os.fsync = s_fsync
    os.fdatasync = s_fsync
    random._urandom = s_urandom
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = lambda: SimLock(True)
    for name in ("isfile", "isdir", "exists", "lexists", "getsize", "getmtime"):
        # 3.12 on Linux implements these in Python on top of os.stat, which is patched above
        assert hasattr(os.path, name)


assert vfsmod.ROOT == "/sim"
