"""Stand-ins for sockets and the event loop, so that the real controller objects run
in-process, deterministically, on a virtual clock."""
import asyncio, heapq, itertools, logging, os, sys, time as _time
import zmq
from tornado import ioloop
from zmq.eventloop import zmqstream

logging.disable(logging.CRITICAL)
logging.raiseExceptions = False


class Clock:
    """virtual clock, installed over time.time"""

    def __init__(self, t0=1_000_000.0):
        self.t0 = t0
        self.t = t0

    def time(self):
        return self.t

    def install(self):
        _time.time = self.time
        _time.monotonic_real = _time.monotonic
        return self


class FakeLoop(ioloop.IOLoop):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, clock):
        self.clock = clock
        self.heap = []
        self.n = itertools.count()
        self.errors = []

    def initialize(self, *a, **k):
        pass

    def time(self):
        return self.clock.t

    def _deadline(self, deadline):
        import datetime
        if isinstance(deadline, datetime.timedelta):
            return self.clock.t + deadline.total_seconds()
        return float(deadline)

    def add_timeout(self, deadline, callback, *args, **kwargs):
        h = [self._deadline(deadline), next(self.n), callback, args, kwargs, True]
        heapq.heappush(self.heap, h)
        return h

    def call_at(self, when, callback, *args, **kwargs):
        return self.add_timeout(when, callback, *args, **kwargs)

    def call_later(self, delay, callback, *args, **kwargs):
        return self.add_timeout(self.clock.t + delay, callback, *args, **kwargs)

    def add_callback(self, callback, *args, **kwargs):
        return self.add_timeout(self.clock.t, callback, *args, **kwargs)

    add_callback_from_signal = add_callback

    def remove_timeout(self, h):
        h[5] = False

    def next_deadline(self):
        while self.heap and not self.heap[0][5]:
            heapq.heappop(self.heap)
        return self.heap[0][0] if self.heap else None

    def fire_until(self, t):
        while True:
            d = self.next_deadline()
            if d is None or d > t + 1e-9:
                break
            h = heapq.heappop(self.heap)
            self.clock.t = max(self.clock.t, h[0])
            try:
                h[2](*h[3], **h[4])
            except Exception as e:  # what the real loop would log
                self.errors.append(repr(e))
        self.clock.t = max(self.clock.t, t)


ALOOP = asyncio.new_event_loop()
asyncio.set_event_loop(ALOOP)


def pump(n=20):
    """let callbacks scheduled on the (otherwise idle) asyncio loop run"""
    for _ in range(n):
        if not asyncio.all_tasks(ALOOP):
            return
        ALOOP.run_until_complete(asyncio.sleep(0))


def drive(coro):
    """run a coroutine that does not really wait for anything"""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


class FakeSocket:
    def __init__(self, *a, **k):
        self.opts = {}

    def setsockopt(self, *a):
        pass

    def __getattr__(self, name):
        def f(*a, **k):
            return None
        return f


class FakeStream(zmqstream.ZMQStream):
    """captures what is sent; the receive callback can be invoked by the driver"""

    def __init__(self, name, on_send=None):
        self.name = name
        self.on_send = on_send
        self.cb = None
        self.copy = True
        self.inbox = []
        self.partial = []
        self.socket = FakeSocket()

    def __del__(self):
        pass

    def on_recv(self, callback, copy=True):
        self.cb = callback
        self.copy = copy

    def on_recv_stream(self, callback, copy=True):
        self.cb = lambda msg: callback(self, msg)
        self.copy = copy

    def stop_on_recv(self):
        self.cb = None

    def on_send(self, *a, **k):
        pass

    def send(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
        self.partial.append(self._b(msg))
        if not (flags & zmq.SNDMORE):
            self._emit()

    def send_multipart(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
        self.partial.extend(self._b(m) for m in msg)
        if not (flags & zmq.SNDMORE):
            self._emit()

    def _emit(self):
        frames, self.partial = self.partial, []
        if self.on_send:
            self.on_send(self.name, frames)

    @staticmethod
    def _b(m):
        if isinstance(m, zmq.Frame):
            return m.bytes
        return bytes(m)

    def closed(self):
        return False

    def close(self, linger=None):
        pass

    def flush(self, flag=zmq.POLLIN | zmq.POLLOUT, limit=None):
        n = 0
        while self.inbox:
            item = self.inbox.pop(0)
            n += 1
            if callable(item):
                item()
            else:
                self.deliver(item)
        return n

    def deliver(self, frames):
        if self.cb is None:
            return
        if self.copy:
            r = self.cb([bytes(f) for f in frames])
        else:
            r = self.cb([zmq.Frame(bytes(f), copy=True) for f in frames])
        if hasattr(r, "send") and hasattr(r, "close"):
            drive(r)
        pump()
        return r
