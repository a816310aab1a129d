"""An in-process stand-in for ZeroMQ: ROUTER / DEALER / PUB / SUB sockets by address, a FIFO per
connection, and a driver that chooses which connection delivers next."""
import itertools, re
import zmq
from zmq.eventloop import zmqstream
from fakes import *

_auto = itertools.count(1)


def portof(url):
    url = url.decode() if isinstance(url, bytes) else url
    m = re.match(r"tcp://.*:(\d+)$", url)
    return "tcp:" + m.group(1) if m else url


class Net:
    def __init__(self):
        self.bound = {}
        self.waiting = {}
        self.chan = {}     # (src, dst) -> list of frames lists
        self.streams = []

    def bind(self, s, url):
        k = portof(url)
        if k in self.bound:
            raise zmq.ZMQError(98)
        self.bound[k] = s
        for c in self.waiting.pop(k, []):
            self.link(c, s)

    def connect(self, s, url):
        k = portof(url)
        if k in self.bound:
            self.link(s, self.bound[k])
        else:
            self.waiting.setdefault(k, []).append(s)

    def link(self, a, b):
        a.peers[b.ident()] = b
        b.peers[a.ident()] = a

    def send(self, s, frames):
        frames = [bytes(f) for f in frames]
        if s.type == zmq.ROUTER:
            d = s.peers.get(frames[0])
            dst = [d] if d is not None else []
            frames = frames[1:]
        elif s.type == zmq.DEALER:
            dst = list(s.peers.values())[:1]
        elif s.type == zmq.PUB:
            dst = [p for p in s.peers.values() if any(frames[0].startswith(x) for x in p.subs)]
        else:
            dst = []
        for d in dst:
            fr = [s.ident()] + frames if d.type == zmq.ROUTER else frames
            self.chan.setdefault((s, d), []).append(fr)

    def ready(self):
        return [c for c, q in self.chan.items() if q]

    def step(self, c):
        fr = self.chan[c].pop(0)
        d = c[1]
        if d.stream is not None:
            d.stream.deliver(fr)
        elif d.on_msg is not None:
            d.on_msg(fr)
        return c

    def settle(self, r, limit=100000):
        n = 0
        while n < limit:
            q = self.ready()
            if not q:
                return
            q.sort(key=lambda c: (c[0].n, c[1].n))
            self.step(r.choice(q))
            n += 1
        raise RuntimeError("network never becomes quiet")


class FSocket:
    NET = None

    def __init__(self, type_, net=None):
        self.net = net or FSocket.NET
        self.type = type_
        self.n = next(_auto)
        self._ident = None
        self.peers = {}
        self.subs = []
        self.stream = None
        self.on_msg = None

    def ident(self):
        if self._ident is None:
            self._ident = b"\0auto%d" % self.n
        return self._ident

    def setsockopt(self, o, v=None):
        if o == zmq.IDENTITY:
            self._ident = v
        elif o == zmq.SUBSCRIBE:
            self.subs.append(v)

    set = setsockopt

    def subscribe(self, v):
        self.subs.append(v.encode() if isinstance(v, str) else v)

    def bind(self, url):
        self.net.bind(self, url)

    def connect(self, url):
        self.net.connect(self, url)

    def send_multipart(self, frames, *a, **k):
        self.net.send(self, frames)

    def close(self, *a, **k):
        pass

    closed = False

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class FStream(FakeStream):
    """a stream over an FSocket"""

    def __init__(self, socket, io_loop=None):
        super().__init__("net")
        self.socket = socket
        socket.stream = self
        socket.net.streams.append(self)
        self.on_send = lambda name, frames: socket.net.send(socket, frames)

    def setsockopt(self, *a):
        self.socket.setsockopt(*a)

    def bind(self, url):
        self.socket.bind(url)

    def connect(self, url):
        self.socket.connect(url)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.__dict__["socket"], name)


def install():
    """patch pyzmq before ipyparallel is imported"""
    zmq.Context.socket = lambda self, t, *a, **k: FSocket(t)
    zmqstream.ZMQStream = FStream
    import zmq.eventloop as ze
    if hasattr(ze, "ZMQStream"):
        ze.ZMQStream = FStream
