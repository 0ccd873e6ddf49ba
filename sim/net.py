"""A simulated TCP listener for servers that run the standard library's socket server.

Connections arrive at given times, send the pieces of a request at their own pace, read as fast or as slowly as they are told and
may go away at any point.  When none is left, the server gets a Ctrl-C."""
import errno
import io
import socket
import socketserver
import http.server

from .core import LINE_BUDGET, SimKilled, current_task

FQDN = "server.example"


def alive():
    "A killed process does nothing more, even if something caught the exception."
    if current_task().killed:
        raise SimKilled()


class Conn:
    "One connection: what it does and what it saw."

    def __init__(self, at, pieces, gone_after=None, drain=0, reset=False):
        self.at = at
        self.pieces = list(pieces)      # (delay us, bytes)
        self.gone_after = gone_after    # it leaves after having got so many bytes
        self.drain = drain              # us for each write
        self.reset = reset              # it leaves instead of the end of the request
        self.out = []                   # (time us, bytes)
        self.accepted = None
        self.closed = None
        self.left = False
        self.refused = False
        self.cut = False                # by the end of the server process
        self.readings = []
        self.faults = []

    @property
    def data(self):
        return b"".join(x for _, x in self.out)


class _RawIn(io.RawIOBase):
    def __init__(self, conn, sim):
        self.conn, self.sim, self.buf = conn, sim, b""

    def readable(self):
        return True

    def readinto(self, b):
        alive()
        while not self.buf:
            if not self.conn.pieces:
                if self.conn.reset:
                    self.conn.left = True
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                return 0
            delay, self.buf = self.conn.pieces.pop(0)
            if delay:
                self.sim.sleep_us(delay)
        n = min(len(b), len(self.buf))
        b[:n] = self.buf[:n]
        self.buf = self.buf[n:]
        return n


class ConnSocket:
    family, type = socket.AF_INET, socket.SOCK_STREAM

    def __init__(self, net, conn):
        self.net, self.conn = net, conn
        task = current_task()
        self.task, self.r0, self.f0 = task, len(task.readings), len(task.faults)
        self.gone = False

    def makefile(self, mode="r", buffering=None, **kw):
        assert mode == "rb", mode
        return io.BufferedReader(_RawIn(self.conn, self.net.sim))

    def sendall(self, data):
        alive()
        c, sim = self.conn, self.net.sim
        if self.gone:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if c.drain:
            sim.sleep_us(c.drain)
        data = bytes(data)
        c.out.append((sim.now_us, data))
        if c.gone_after is not None and len(c.data) > c.gone_after:
            self.gone = c.left = True
            raise (BrokenPipeError(errno.EPIPE, "Broken pipe") if c.gone_after % 2 else
                   ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))

    def send(self, data):
        self.sendall(data)
        return len(data)

    def shutdown(self, how):
        if self.gone:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")

    def close(self):
        if self.conn.closed is None:
            self.conn.closed = self.net.sim.now_us
            self.conn.readings = self.task.readings[self.r0:]
            self.conn.faults = self.task.faults[self.f0:]

    def fileno(self):
        return 99

    def settimeout(self, secs):
        pass

    def setsockopt(self, *args):
        pass

    def getpeername(self):
        return ("192.0.2.1", 40000)


class ListenSocket:
    def __init__(self, net):
        self.net = net
        self.addr = None

    def setsockopt(self, *args):
        pass

    def setblocking(self, flag):
        pass

    def settimeout(self, secs):
        pass

    def gettimeout(self):
        return None

    def bind(self, addr):
        self.addr = addr

    def getsockname(self):
        return self.addr

    def listen(self, backlog=0):
        self.net.listening(self.addr)

    def fileno(self):
        return 98

    def accept(self):
        return self.net.accept(), ("192.0.2.1", 40000)

    def close(self):
        self.net.open = False


class Net:
    def __init__(self, world):
        self.sim = world.sim
        self.world = world
        self.todo = []
        self.addr = None
        self.open = False
        world.net = self
        install()

    def listening(self, addr):
        "Connections that came while nobody listened were refused."
        self.addr = addr
        self.open = True
        while self.todo and self.todo[0].at < self.sim.now_us:
            self.todo.pop(0).refused = True
            self.world.count("connection_refused")

    def wait(self):
        alive()
        if not self.todo:
            raise KeyboardInterrupt()
        self.sim.sleep_us(max(0, self.todo[0].at - self.sim.now_us))

    def accept(self):
        task = current_task()
        task.budget = task.lines + LINE_BUDGET
        c = self.todo.pop(0)
        c.accepted = self.sim.now_us
        return ConnSocket(self, c)


class _Selector:
    def __init__(self):
        self.keys = []

    def register(self, fileobj, events, data=None):
        self.keys.append(fileobj)

    def unregister(self, fileobj):
        self.keys.remove(fileobj)

    def select(self, timeout=None):
        current_task().sim.world.net.wait()
        return [(k, 1) for k in self.keys]

    def get_map(self):
        return {k: k for k in self.keys}

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _SocketModule:
    "The socket module as socket servers see it."

    def __getattr__(self, name):
        return getattr(socket, name)

    @staticmethod
    def socket(*args, **kw):
        task = current_task()
        if task is None:
            return socket.socket(*args, **kw)
        return ListenSocket(task.sim.world.net)

    @staticmethod
    def getfqdn(name=""):
        return socket.getfqdn(name) if current_task() is None else FQDN


_done = []


def install():
    if _done:
        return
    _done.append(1)
    real = socketserver._ServerSelector
    socketserver.socket = http.server.socket = _SocketModule()
    socketserver._ServerSelector = lambda: real() if current_task() is None else _Selector()
