"""The simulated deployment: workers running the real code, clients, disk, network, clock."""
import builtins
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import re
import random
import sys
import traceback
import warnings
import xml.etree.ElementTree
import zlib

from . import core, seams
from .core import HarnessError, Sim, SimHang, SimKilled, current_task
from .vfs import ROOT, VFS, Fault

REPO = os.environ.get("DST_REPO", "/repo")
CONF = ROOT + "/conf"
CONTENT = ROOT + "/content"

_code_cache = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path = path
        self.ispkg = ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code_cache.get(self.path)
        if code is None:
            with seams.REAL.open(self.path, "rb") as ifh:
                src = ifh.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore", SyntaxWarning)
                code = compile(src, self.path, "exec", dont_inherit=True)
            _code_cache[self.path] = code
            core.monitor_code(code)
        module.__file__ = self.path
        with core.outside():    # no preemption while the interpreter holds its import lock
            exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    "Loads the code under test from REPO's sources (never from byte-code caches)."

    def __init__(self):
        self.extra = [os.path.join(REPO, "dashlivesim/dashlib/stpp_generator")]

    def find_spec(self, name, path=None, target=None):
        if name == "dashlivesim" or name.startswith("dashlivesim."):
            base = os.path.join(REPO, *name.split("."))
        elif "." not in name and seams.REAL.access(os.path.join(self.extra[0], name + ".py"), os.R_OK):
            base = os.path.join(self.extra[0], name)
        else:
            return None
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.util.spec_from_loader(name, _Loader(init, True), is_package=True, origin=init)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_loader(name, _Loader(base + ".py", False), origin=base + ".py")
        if seams.REAL.access(base, os.R_OK):  # namespace dir
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


class _Out(io.TextIOBase):
    "stdout/stderr: what the code under test prints is counted and dropped."

    def __init__(self, real):
        self.real = real

    def write(self, s):
        task = current_task()
        if task is not None:
            task.sim.world.printed += len(s)
            out = task.sim.world.stdout_sink
            if out is not None:
                out.append(s)
            return len(s)
        return self.real.write(s)

    def flush(self):
        if current_task() is None:
            self.real.flush()

    def isatty(self):
        return False

    @property
    def encoding(self):
        return "utf-8"

    @property
    def buffer(self):
        return self.real.buffer


_setup = False
_real_print_exc = traceback.print_exc


def _print_exc(*a, **kw):
    task = current_task()
    if task is not None:
        exc = sys.exc_info()[1]
        task.sim.world.tracebacks.append("%s: %s" % (type(exc).__name__, exc))
        return None
    return _real_print_exc(*a, **kw)


def setup():
    global _setup
    if _setup:
        return
    _setup = True
    sys.dont_write_bytecode = True
    # stdlib used by the code under test: import before patching
    import configparser, tempfile, glob, pathlib, shutil, argparse, urllib.parse, wsgiref.simple_server  # noqa
    import base64, uuid, logging, bisect, struct, copy, re, fractions, decimal, calendar, email.utils  # noqa
    import encodings.idna, encodings.utf_8, encodings.ascii, encodings.latin_1  # noqa
    seams.install()
    core.install_monitoring()
    traceback.print_exc = _print_exc
    sys.stdout = _Out(sys.stdout)
    sys.stderr = _Out(sys.stderr)
    sys.meta_path.insert(0, _Finder())


def purge():
    for name in [n for n in sys.modules if n == "dashlivesim" or n.startswith("dashlivesim.")
                 or n in ("stpp_creator", "make_stpp_segments", "make_stpp_mpd")]:
        del sys.modules[name]


_pristine = []


ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "<-0930>9:30", "<+14>-14"]
ENCODINGS = ["utf-8", "utf-8", "ascii", "iso-8859-1"]


class Worker:
    "One server process: its own copy of the modules and its own wall clock."

    def __init__(self, world, idx, skew_us=0):
        self.world = world
        self.idx = idx
        self.skew = [(0, skew_us)]  # (from true time us, offset)
        self.alive = True
        self.stall = 0
        self.over = []
        self.mods = {}
        self.boot()

    def boot(self):
        setup()
        purge()
        ns = xml.etree.ElementTree._namespace_map       # process-wide state of the standard library
        if not _pristine:
            _pristine.append(dict(ns))
        ns.clear()
        ns.update(_pristine[0])
        with core.outside():
            self.mod = importlib.import_module("dashlivesim.mod_wsgi.mod_dashlivesim")
        self.modules = {n: m for n, m in sys.modules.items() if n.startswith("dashlivesim")}
        self.application = self.mod.application
        if self.world is not None and self.world.max_session:
            self.mod.MAX_SESSION_LENGTH = self.world.max_session

    def restart(self):
        "Process restart: module state is rebuilt from source."
        self.boot()
        self.alive = True
        self.world.count("worker_restart")

    def clock_off(self, now_us):
        off = self.skew[0][1]
        for t, o in self.skew:
            if t <= now_us:
                off = o
        return off

    def oversleep(self):
        if self.over:
            self.world.count("oversleep")
            return self.over.pop(0)
        return 0


class Resp:
    __slots__ = ("status", "reason", "headers", "hlist", "chunks", "body", "exc", "readings", "t0", "t1", "errors",
                 "url", "hung", "worker", "complete", "range", "req", "lines", "killed", "nstart", "faults")

    def __init__(self):
        self.status = None
        self.reason = ""
        self.headers = {}
        self.hlist = []
        self.chunks = []
        self.body = b""
        self.exc = None
        self.readings = []
        self.errors = []
        self.hung = None
        self.complete = False
        self.killed = False
        self.nstart = 0
        self.faults = []

    @property
    def t(self):
        "The first clock reading the request was given."
        return self.readings[0] if self.readings else None


# What clients call the server
HOSTS = ["sim.example.com", "sim.example.com", "sim.example.com:8059", "[2001:db8::7]:8059", "192.0.2.7", "my_cdn.example:81"]


class World:
    host = HOSTS[0]     # of the last deployment; clients call the reference deployments by the same name
    backend = None      # name and port that the server itself goes by, when it is behind a front end

    @property
    def HOST(self):
        return World.host

    def __init__(self, sched_seed=0, policy="random", start=1_700_000_000.0, nworkers=1, max_session=0, skews=()):
        setup()
        self.sim = Sim(sched_seed, policy, int(round(start * 1e6)))
        self.sim.world = self
        # Servers run in any time zone; seeds 0 and 1 are the reference deployments
        self.zone = ZONES[zlib.crc32(b"tz/%d" % sched_seed) % len(ZONES)] if sched_seed > 1 else "UTC0"
        self.sim.enter = lambda: seams.set_zone(self.zone)
        self.sim.enter()
        self.vfs = VFS(self)
        if sched_seed > 1:
            World.host = HOSTS[zlib.crc32(b"host/%d" % sched_seed) % len(HOSTS)]
            World.backend = ("backend-3.internal", "8000") if zlib.crc32(b"backend/%d" % sched_seed) % 3 == 0 else None
            self.vfs.encoding = ENCODINGS[zlib.crc32(b"enc/%d" % sched_seed) % len(ENCODINGS)]
        self.max_session = max_session
        self.counts = {}
        self.printed = 0
        self.stdout_sink = None
        self.tracebacks = []
        self.prng = random.Random("prng/%s" % sched_seed)
        random.seed("app/%s" % sched_seed)
        self.vfs.dirs |= {CONF, CONTENT}
        self.workers = [Worker(self, i, skews[i] if i < len(skews) else 0) for i in range(nworkers)]
        self.nreq = 0
        if self.zone != "UTC0":
            self.count("host_not_in_utc")
        if self.HOST != HOSTS[0]:
            self.count("host_other_name")
        if World.backend:
            self.count("host_behind_front_end")
        if self.vfs.encoding != "utf-8":
            self.count("host_not_in_utf8")
        self.resps = []
        self.hist = hashlib.sha256()

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def install_asset(self, asset):
        for path, data in asset.files.items():
            self.vfs.put(path, data)

    def crash_at(self, task, arg):
        task.killed = True
        raise SimKilled()

    # -- one HTTP request, run inside a task of a worker
    def environ(self, url, headers=None, https=False, method="GET"):
        path, _, query = url.partition("?")
        name, port = re.match(r"(\[.*\]|[^:]*)(?::(\d+))?\Z", self.HOST).groups()
        port = port or ("443" if https else "80")
        if World.backend and (headers or {}).get("Host", "") is not None:
            name, port = World.backend
        env = {"REQUEST_METHOD": method, "SCRIPT_NAME": "", "PATH_INFO": path, "QUERY_STRING": query,
               "REQUEST_URI": url, "HTTP_HOST": self.HOST, "SERVER_NAME": name, "SERVER_PORT": port,
               "SERVER_PROTOCOL": "HTTP/1.1", "REMOTE_ADDR": "192.0.2.1",
               "VOD_CONF_DIR": CONF, "CONTENT_ROOT": CONTENT,
               "wsgi.version": (1, 0), "wsgi.url_scheme": "https" if https else "http",
               "wsgi.input": io.BytesIO(b""), "wsgi.errors": sys.stderr, "wsgi.multithread": True,
               "wsgi.multiprocess": len(self.workers) > 1, "wsgi.run_once": False}
        for k, v in (headers or {}).items():
            if v is None:       # A header that is not sent
                env.pop("HTTP_" + k.upper().replace("-", "_"), None)
            else:
                env["HTTP_" + k.upper().replace("-", "_")] = v
        return env

    def serve(self, worker, url, headers=None, https=False, reader=None, method="GET"):
        """Drive the WSGI application for one request.  reader(resp, chunk) is called per body
        chunk in the serving task; it may sleep (slow client) or return False (client went away)."""
        task = current_task()
        r = Resp()
        r.url = url
        r.t0 = self.sim.now_us
        r.worker = worker.idx
        first = len(task.readings)
        fault0 = len(task.faults)
        line0 = task.lines
        task.budget = task.lines + core.LINE_BUDGET
        headers_set = []

        def start_response(status, hdrs, exc_info=None):
            r.nstart += 1
            if headers_set and exc_info is None:
                r.errors.append("start_response called twice")
            if not isinstance(status, str) or len(status) < 4 or not status[:3].isdigit() or status[3] != " ":
                r.errors.append("bad status line %r" % (status,))
            if type(hdrs) is not list:
                r.errors.append("headers are %s, not a list" % type(hdrs).__name__)
            headers_set[:] = [(status, list(hdrs))]
            for item in hdrs:
                if not (isinstance(item, tuple) and len(item) == 2):
                    r.errors.append("bad header item %r" % (item,))
                elif not isinstance(item[0], str) or not isinstance(item[1], str):
                    r.errors.append("header %r has non-string value %r" % (item[0], item[1]))
                elif any(c in item[1] + item[0] for c in "\r\n\0"):
                    r.errors.append("control character in header %r" % (item[0],))
            return lambda data: r.errors.append("write() callable used")

        env = self.environ(url, headers, https, method)
        it = None
        try:
            it = worker.application(env, start_response)
            for chunk in it:
                if not isinstance(chunk, bytes):
                    r.errors.append("body chunk is %s, not bytes" % type(chunk).__name__)
                    chunk = b""
                if not headers_set:
                    r.errors.append("body before start_response")
                r.chunks.append((self.sim.now_us, chunk))
                if reader is not None and reader(r, chunk) is False:
                    self.count("client_disconnect")
                    break
            else:
                r.complete = True
        except SimKilled:
            r.killed = True
            raise
        except SimHang as exc:
            r.exc = exc
            r.hung = task.hung
        except HarnessError:
            raise
        except BaseException as exc:
            r.exc = exc
        finally:
            if it is not None and hasattr(it, "close"):
                try:
                    it.close()
                except BaseException as exc:
                    if r.exc is None and not r.killed:
                        r.exc = exc
            if task.hung and not r.hung:
                r.hung = task.hung
            r.readings = task.readings[first:]
            r.faults = task.faults[fault0:]
            r.lines = task.lines - line0
            r.t1 = self.sim.now_us
            if headers_set:
                status, hdrs = headers_set[0]
                try:
                    r.status = int(status[:3])
                    r.reason = status[4:]
                except (ValueError, TypeError):
                    pass
                r.hlist = hdrs
                for k, v in hdrs:
                    r.headers.setdefault(str(k).lower(), []).append(v)
            r.body = b"".join(c for _, c in r.chunks)
            self.hist.update(("%s|%s|%s|%d|" % (url, r.status, sorted(map(str, r.hlist)), r.t1)).encode())
            self.hist.update(r.body)
        return r

    def spawn_request(self, url, at_us=None, worker=0, headers=None, https=False, reader=None, switch=(), cb=None,
                      name=None):
        "Schedule one request as its own task."
        self.nreq += 1
        wk = self.workers[worker]

        def fn():
            r = self.serve(wk, url, headers, https, reader)
            if cb is not None:
                try:
                    cb(r)
                except SimKilled:
                    raise
                except BaseException as exc:    # the judge could not cope with the answer: not to be lost
                    self.sim.trouble = self.sim.trouble or exc
            return r
        return self.sim.spawn(name or "r%d" % self.nreq, fn, wk, at_us, switch)

    def get(self, url, **kw):
        "Run a single request to completion (nothing else scheduled)."
        t = self.spawn_request(url, **kw)
        self.sim.run()
        if isinstance(t.exc, HarnessError):
            raise t.exc
        return t.result

    def call(self, fn, worker=0, at_us=None, name="call", cwd=None, switch=()):
        "Run a harness-supplied function as a task (tools, client programs)."
        t = self.sim.spawn(name, fn, self.workers[worker] if worker is not None else None, at_us, switch)
        t.cwd = cwd
        return t

    def advance_to(self, t):
        "Move virtual time forward (no runnable work)."
        us = int(round(t * 1e6)) if isinstance(t, float) else int(t) * 1_000_000
        self.set_us(us)

    def set_us(self, us):
        if us > self.sim.now_us:
            self.sim.now_us = us

    def digest(self):
        h = self.sim.trace.copy()
        h.update(self.hist.digest())
        h.update(str(self.sim.now_us).encode())
        return h.hexdigest()


__all__ = ["World", "Worker", "Resp", "Fault", "CONF", "CONTENT", "builtins"]
