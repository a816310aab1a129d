"""The whole system in one process: the real controller application (hub, task scheduler, tree of
broadcast schedulers, relays), real engines (the application object's registration code and the
kernel's request handling) and real clients, over an in-process network.  Threads, sockets, event
loops and the clock are stand-ins; what happens next is chosen by a seeded generator, so that every
run is a schedule of the real code that can be repeated."""
import concurrent.futures, concurrent.futures._base as cfb, contextlib, itertools, json, os, random, shutil, sys, tempfile, threading, time, types, warnings
from fakes import *
clock = Clock().install()
import fakenet
from fakenet import FSocket, FStream, Net, portof
fakenet.install()
os.environ["PYDEVD_DISABLE_FILE_VALIDATION"] = "1"
import zmq, zmq.asyncio
warnings.simplefilter("ignore")
os.getpid = lambda: 4242
time.sleep = lambda *a: None
import IPython

REAL_STDOUT, REAL_STDERR = sys.stdout, sys.stderr


class Cur:
    """the engine that is executing, if any"""
    engine = None
    sim = None


def sim_get_ipython():
    return Cur.engine.shell if Cur.engine is not None else None


IPython.get_ipython = sim_get_ipython
from jupyter_client import session as jsession
import tornado.ioloop as tioloop


class Hang(BaseException):
    """a blocking call that nothing in the system can ever end"""


class TooLong(BaseException):
    pass


# ---------------------------------------------------------------- event loops

class SLoop(FakeLoop):
    """an event loop whose callbacks are fired one at a time by the driver"""
    def __init__(self, *a, **k):
        super().__init__(clock)
        SIM.loops.append(self)

    def initialize(self, *a, **k):
        pass

    def start(self):
        pass

    def stop(self):
        self.stopped = True

    def close(self, *a, **k):
        pass

    def due(self):
        d = self.next_deadline()
        return d is not None and d <= clock.t + 1e-9

    def fire_one(self):
        import heapq
        self.next_deadline()
        h = heapq.heappop(self.heap)
        try:
            r = h[2](*h[3], **h[4])
            if hasattr(r, "send") and hasattr(r, "close"):
                drive(r)
        except Exception as e:
            SIM.errors.append(repr(e))
        pump()


class Holder:
    pass


SIM = Holder()
SIM.loops = []
SIM.errors = []

_ctl_loop = [None]
tioloop.IOLoop.current = staticmethod(lambda *a, **k: Cur.engine.loop if Cur.engine is not None else _ctl_loop[0])


# ---------------------------------------------------------------- threads as schedule choices

class SimEvent:
    def __init__(self):
        self.f = False

    def set(self):
        self.f = True

    def clear(self):
        self.f = False

    def is_set(self):
        return self.f

    isSet = is_set

    def wait(self, timeout=None):
        if self.f:
            return True
        return SIM.sys.block(lambda: self.f, timeout)


class SimCondition:
    def __init__(self, lock=None):
        self.n = 0

    def __enter__(self):
        return True

    def __exit__(self, *a):
        return False

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    def notify_all(self):
        self.n += 1

    def notify(self, n=1):
        self.n += 1

    def wait(self, timeout=None):
        n = self.n
        return SIM.sys.block(lambda: self.n != n, timeout)

    def wait_for(self, pred, timeout=None):
        return SIM.sys.block(pred, timeout)


class SimThread:
    """runs its target to the end as soon as it is started: the targets are event loops that return"""
    def __init__(self, target=None, args=(), kwargs=None, daemon=None, name=None):
        self.t, self.a, self.k = target, args, kwargs or {}
        self.daemon = daemon

    def start(self):
        self.t(*self.a, **self.k)

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return True


class SimPool(concurrent.futures.Executor):
    """a pool of one worker; what is submitted runs when the driver chooses"""
    def __init__(self, n=1, *a, **k):
        self.q = []
        self.n = n
        self.closed = False
        SIM.sys.pools.append(self)

    def submit(self, fn, /, *a, **k):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = concurrent.futures.Future()
        self.q.append((f, fn, a, k))
        return f

    def run_one(self):
        f, fn, a, k = self.q.pop(0)
        if not f.set_running_or_notify_cancel():
            return
        try:
            r = fn(*a, **k)
        except BaseException as e:
            if isinstance(e, (Hang, TooLong)):
                raise
            f.set_exception(e)
        else:
            f.set_result(r)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for f, *_ in self.q:
                f.cancel()
        if wait:
            SIM.sys.block(lambda: not self.q, None)


_th = types.ModuleType("threading_stand_in")
_th.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
_th.Event, _th.Condition, _th.Thread = SimEvent, SimCondition, SimThread
cfb.threading = _th
concurrent.futures.ThreadPoolExecutor = SimPool
REAL_PERF = time.perf_counter
time.perf_counter = lambda: clock.t


class SimPoller:
    def __init__(self):
        self.s = []

    def register(self, s, *a):
        self.s.append(s)

    def poll(self, ms=None):
        ok = SIM.sys.block(lambda: any(x.inbox for x in self.s), None if ms is None else ms / 1000)
        return [(x, zmq.POLLIN) for x in self.s if x.inbox]


class Wait:
    def __init__(self, pred):
        self.pred = pred

    def __await__(self):
        yield self.pred


class SimAsyncPoller(SimPoller):
    async def poll(self, timeout=None):
        await Wait(lambda: any(x.inbox for x in self.s))
        return [(x, zmq.POLLIN) for x in self.s if x.inbox]


zmq.Poller = SimPoller
zmq.asyncio.Poller = SimAsyncPoller


class SSocket(FSocket):
    """a socket that may also be read directly, and closed"""
    def __init__(self, t, net=None):
        super().__init__(t, net)
        self.inbox = []
        self.dead = False
        self.on_msg = lambda fr: self.inbox.append(fr)

    def recv_multipart(self, *a, copy=True, **k):
        fr = self.inbox.pop(0)
        return fr if copy else [zmq.Frame(x) for x in fr]

    def __setattr__(self, k, v):
        if k == "IDENTITY":
            k = "_ident"
        object.__setattr__(self, k, v)

    def send_multipart(self, frames, *a, **k):
        if not self.dead:
            self.net.send(self, [FakeStream._b(f) for f in frames])

    def close(self, *a, **k):
        self.dead = True
        self.net.drop(self)

    @property
    def closed(self):
        return self.dead

    @closed.setter
    def closed(self, v):
        pass


class SNet(Net):
    def __init__(self):
        super().__init__()
        self.stalled = {}

    def send(self, s, frames):
        if s.type == zmq.XPUB:
            s.type = zmq.PUB
        self.stalled.pop(s, None)
        return super().send(s, frames)

    def stall(self, s):
        n = {c: len(q) for c, q in self.chan.items() if c[1] is s and q}
        if n:
            self.stalled[s] = n

    def ready(self):
        out = super().ready()
        if not self.stalled:
            return out
        for s in list(self.stalled):     # something new has arrived
            if any(len(self.chan[c]) > self.stalled[s].get(c, 0) for c in out if c[1] is s):
                del self.stalled[s]
        return [c for c in out if c[1] not in self.stalled]

    def drop(self, s):
        for p in list(s.peers.values()):
            if p.peers.get(s.ident()) is s:
                del p.peers[s.ident()]
        s.peers.clear()
        for c in list(self.chan):
            if s in c:
                del self.chan[c]
        for k, v in list(self.bound.items()):
            if v is s:
                del self.bound[k]
        for v in self.waiting.values():
            if s in v:
                v.remove(s)


zmq.Context.socket = lambda self, t, *a, **k: SSocket(t)


class SStream(FStream):
    def closed(self):
        return self.socket.dead

    def close(self, linger=None):
        self.socket.close()

    def send(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
        super().send(msg, flags)

    def send_multipart(self, msg, flags=0, copy=True, track=False, callback=None, **kw):
        super().send_multipart(msg, flags)

    def deliver(self, frames):
        """as in pyzmq: if the callback raises, the messages that are already there are not looked at
        before the socket is used again or something new arrives"""
        if self.cb is None:
            return
        fr = [bytes(f) for f in frames]
        try:
            r = self.cb(fr if self.copy else [zmq.Frame(f, copy=True) for f in fr])
        except Exception:
            self.socket.net.stall(self.socket)
            raise
        if hasattr(r, "send") and hasattr(r, "close"):
            drive(r)
        pump()
        return r


from zmq.eventloop import zmqstream
zmqstream.ZMQStream = SStream
import zmq.eventloop as _ze
_ze.ZMQStream = SStream

# ---------------------------------------------------------------- the code under test
import traitlets
from traitlets.config import Config
from jupyter_client.session import Session
import ipykernel.kernelbase as kbase, ipykernel.ipkernel as ipk
import ipyparallel as ipp
from ipyparallel import error, serialize, util
from ipyparallel.client import asyncresult as ar_mod, client as client_mod, futures as fut_mod, view as view_mod, remotefunction as rf_mod
from ipyparallel.controller import app as app_mod
from ipyparallel.controller.app import IPController
from ipyparallel.engine import app as eng_mod, kernel as kernel_mod
from ipyparallel.engine.kernel import IPythonParallelKernel

for m in (ar_mod, client_mod, fut_mod, view_mod):
    if hasattr(m, "Event"):
        m.Event = SimEvent
    if hasattr(m, "Thread"):
        m.Thread = SimThread
    if hasattr(m, "threading"):
        m.threading = _th
    if hasattr(m, "current_thread"):
        m.current_thread = lambda: None
    if hasattr(m, "time") and m.time is time:
        pass


class _LoopMod:
    """tornado.ioloop as the client sees it: a new loop is a stand-in"""
    IOLoop = SLoop

    def __getattr__(self, k):
        return getattr(tioloop, k)


client_mod.ioloop = _LoopMod()
SLoop.current = staticmethod(lambda *a, **k: Cur.engine.loop if Cur.engine is not None else _ctl_loop[0])


def relax(cls):
    """let stand-ins be assigned to typed attributes"""
    for t in cls.class_traits().values():
        k = getattr(t, "klass", None)
        n = k if isinstance(k, str) else getattr(k, "__name__", "")
        if n.rsplit(".", 1)[-1] in ("Socket", "ZMQStream", "IOLoop"):
            t.klass = object


relax(client_mod.Client)
relax(eng_mod.IPEngine)

TMP = tempfile.mkdtemp(prefix="vf_sim_")
from IPython.core.profiledir import ProfileDir
PROFILE = ProfileDir.create_profile_dir(TMP)
KEY = b"sim-key"


# ---------------------------------------------------------------- relays (pyzmq devices)

class Relay:
    """zmq.devices MonitoredQueue: forwards both ways and publishes a copy to the monitor"""
    def __init__(self, in_type, out_type, mon_type=zmq.PUB, in_prefix=b"in", out_prefix=b"out"):
        self.i, self.o, self.m = SSocket(in_type), SSocket(out_type), SSocket(mon_type)
        self.pi, self.po = in_prefix, out_prefix
        swap = in_type == zmq.ROUTER and out_type == zmq.ROUTER

        def fwd(dst, prefix):
            def f(frames):
                if swap:
                    frames = [frames[1], frames[0], *frames[2:]]
                dst.send_multipart(frames)
                self.m.send_multipart([prefix, *frames])
            return f
        self.i.on_msg = fwd(self.o, self.pi)
        self.o.on_msg = fwd(self.i, self.po)

    def bind_in(self, u): self.i.bind(u)
    def bind_out(self, u): self.o.bind(u)
    def bind_mon(self, u): self.m.bind(u)
    def connect_in(self, u): self.i.connect(u)
    def connect_out(self, u): self.o.connect(u)
    def connect_mon(self, u): self.m.connect(u)
    def setsockopt_in(self, o, v): self.i.setsockopt(o, v)
    def setsockopt_out(self, o, v): self.o.setsockopt(o, v)
    def setsockopt_mon(self, o, v): self.m.setsockopt(o, v)
    def start(self): pass


sys.modules["sim_relay"] = types.ModuleType("sim_relay")
sys.modules["sim_relay"].Relay = Relay


# ---------------------------------------------------------------- engines

class Shell:
    """what the kernel needs of an interactive shell"""
    def __init__(self, kernel):
        self.kernel = kernel
        self.user_ns = {"__name__": "__main__", "__builtins__": __builtins__}
        self.configurables = []
        self.execution_count = 0
        self._last_traceback = None
        self.display_pub = Holder()

    @property
    def user_global_ns(self):
        return self.user_ns

    def set_parent(self, parent):
        self.data_pub.set_parent(parent)

    def reset(self, new_session=True):
        for k in list(self.user_ns):
            if not k.startswith("__"):
                del self.user_ns[k]
        self.reset_count = getattr(self, "reset_count", 0) + 1

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kk: None

    def publish(self, typ, content, metadata=None):
        k = self.kernel
        k.session.send(k.iopub_socket, typ, content, parent=k.get_parent("shell"), ident=k._topic(typ), metadata=metadata)

    def showtraceback(self, *a, **k):
        et, ev, tb = sys.exc_info()
        stb = [f"{et.__name__}: {str(ev)}"]
        self._last_traceback = stb
        self.publish("error", {"traceback": stb, "ename": et.__name__, "evalue": str(ev)})


class Out:
    """buffered standard stream of an engine"""
    def __init__(self, session, pub, name, **k):
        self.session, self.pub, self.name, self.buf, self.topic = session, pub, name, "", None

    def write(self, s):
        self.buf += s
        return len(s)

    def flush(self):
        if self.buf:
            t, self.buf = self.buf, ""
            self.session.send(self.pub, "stream", {"name": self.name, "text": t}, parent=Cur.engine.kernel.get_parent("shell"), ident=self.topic)

    def isatty(self):
        return False


def _ipk_init(self, **kw):
    kbase.Kernel.__init__(self, **kw)
    self.shell = Shell(self)


async def _ipk_do_execute(self, code, silent, store_history=True, user_expressions=None, allow_stdin=False, **k):
    sh = self.shell
    if not silent:
        sh.execution_count += 1
    try:
        import ast
        tree = ast.parse(code)
        val = None
        if tree.body and isinstance(tree.body[-1], ast.Expr):
            last = ast.Expression(tree.body.pop().value)
            exec(compile(tree, "<c>", "exec"), sh.user_ns)
            val = eval(compile(last, "<c>", "eval"), sh.user_ns)
        else:
            exec(compile(tree, "<c>", "exec"), sh.user_ns)
    except Exception as e:
        sh.showtraceback()
        stb, sh._last_traceback = sh._last_traceback, None
        return {"status": "error", "ename": type(e).__name__, "evalue": str(e), "traceback": stb, "execution_count": sh.execution_count, "user_expressions": {}, "payload": []}
    if val is not None and not silent:
        sys.stdout.flush()
        sh.publish("execute_result", {"data": {"text/plain": repr(val)}, "metadata": {}, "execution_count": sh.execution_count})
    # the count identifies the run, so that a reply can be told from any other
    n = val[1] if isinstance(val, tuple) and len(val) == 2 and val[0] == "v" else sh.execution_count
    return {"status": "ok", "execution_count": n, "user_expressions": {}, "payload": []}


ipk.IPythonKernel.__init__ = _ipk_init
ipk.IPythonKernel.do_execute = _ipk_do_execute
ipk.IPythonKernel.start = lambda self: None
for _c in (kbase.Kernel, ipk.IPythonKernel, IPythonParallelKernel):
    for _t in _c.class_traits().values():
        if _t.name in ("shell", "iopub_socket", "control_thread", "shell_stream", "control_stream", "stdin_socket", "io_loop", "session", "shell_channel_thread", "iopub_thread") and hasattr(_t, "klass"):
            _t.klass = object
            _t.allow_none = True
from ipykernel.zmqshell import ZMQInteractiveShell
ZMQInteractiveShell.instance = classmethod(lambda cls, *a, **k: Cur.engine.shell)
IPythonParallelKernel.instance = classmethod(lambda cls, **kw: cls(**kw))
# user functions may run any length of time; the kernel signals and process bookkeeping are not modelled
kbase.Kernel.pre_handler_hook = lambda self: None
kbase.Kernel.post_handler_hook = lambda self: None


class IOPub:
    """the io-publisher thread: sends at once"""
    def __init__(self, socket, pipe=False, session=None, **k):
        self.socket = socket

    def start(self):
        pass

    def send_multipart(self, frames, *a, **k):
        self.socket.send_multipart(frames)

    def flush(self, *a, **k):
        pass


class CtlThread:
    def __init__(self, *a, **k):
        self.io_loop = Cur.engine.loop

    def start(self):
        pass


class KApp:
    def __init__(self, **k):
        pass

    exec_lines = property(lambda s: [])

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kk: None


class HeartStub:
    def __init__(self, *a, heart_id=None, **k):
        Cur.engine.heart_id = heart_id

    def start(self):
        Cur.engine.beating = True


eng_mod.ControlThread = CtlThread
for _t in eng_mod.IPEngine.class_traits().values():
    if _t.name in ("out_stream_factory", "display_hook_factory", "kernel", "kernel_app"):
        _t.klass = object
        _t.allow_none = True
try:
    import ipykernel.control as _ict
    _ict.ControlThread = CtlThread
except Exception:
    pass
eng_mod.IPKernelApp = KApp
eng_mod.Heart = HeartStub
eng_mod.IOPubThread = IOPub


class Engine:
    def __init__(self, sys_, n, info, want=None, ident=None):
        self.sys = sys_
        self.n = n
        self.id = -1
        self.state = "new"     # new, asked, up, dead
        self.heart_id = None
        self.beating = False
        self.shell = None
        self.kernel = None
        self.queue = []
        self.streams = {}
        self.out = (REAL_STDOUT, REAL_STDERR)
        self.loop = None
        self.closed = []
        self.busy = False      # something that takes long is running there: requests wait, control messages do not
        with self.on():
            self.loop = SLoop()
            c = Config()
            c.Session.key = KEY
            c.IPEngine.enable_nanny = False
            c.IPEngine.max_heartbeat_misses = 0
            c.IPEngine.log_level = 50
            app = self.app = eng_mod.IPEngine(config=c)
            app.profile_dir = PROFILE
            app.init_signal = lambda: None
            app.exit = self.exited
            app.out_stream_factory = Out
            app.display_hook_factory = None
            app.ident = ident or sys_.new_id()
            if want is not None:
                app.id = want
            self.uuid = app.ident
            os.environ["IPP_CONNECTION_INFO"] = ""
            app.connection_info_env = json.dumps(info)
            app.load_connection_file()
            self.coro = app.register()
            self.pred = None
            self.advance()

    @contextlib.contextmanager
    def on(self):
        """this engine is the process that is running"""
        old = Cur.engine
        so, se = sys.stdout, sys.stderr
        Cur.engine = self
        sys.stdout, sys.stderr = self.out
        try:
            yield
        finally:
            self.out = (sys.stdout, sys.stderr)
            Cur.engine = old
            sys.stdout, sys.stderr = so, se

    def exited(self, *a):
        import traceback
        self.state = "dead"
        self.why = traceback.format_exc()

    def advance(self):
        try:
            self.pred = self.coro.send(None)
            self.state = "asked"
        except StopIteration:
            self.coro = None
            if self.state != "dead":
                self.up()

    def up(self):
        self.state = "up"
        self.id = self.app.id
        self.kernel = self.app.kernel
        self.shell = self.kernel.shell
        ss = self.app.shell_socket
        ss.on_msg = self.on_shell
        ss.stream = None
        self.kernel.shell_stream.socket = ss
        cs = self.app.control_socket
        cs.stream = None
        cs.on_msg = self.on_control
        self.sys.on_engine_up(self)

    def on_shell(self, frames):
        self.queue.append(frames)
        self.sys.on_queued(self, frames)

    def on_control(self, frames):
        self.sys.on_control(self, frames)
        with self.on():
            drive(self.kernel.process_control([zmq.Frame(f) for f in frames]))

    def run_next(self):
        frames = self.queue.pop(0)
        with self.on():
            self.sys.before_exec(self, frames)
            try:
                drive(self.kernel.dispatch_shell([zmq.Frame(f) for f in frames]))
            finally:
                for o in self.out:
                    if isinstance(o, Out):
                        o.flush()
                self.sys.after_exec(self, frames)
        pump()

    def kill(self, late=False):
        """the process ends; what it had sent before may still arrive"""
        self.state = "dead"
        self.queue = []
        if late:
            mine = (self.app.shell_socket, self.app.control_socket, self.app.iopub_socket) if self.kernel else ()
            kept = {c: q for c, q in self.sys.net.chan.items() if c[0] in mine and q}
            self.kill()
            self.sys.net.chan.update(kept)
            return
        for s in (self.app.shell_socket, self.app.control_socket, self.app.iopub_socket, self.app.registrar) if self.kernel else (self.app.registrar,):
            s.close()


# ---------------------------------------------------------------- the system

class System:
    MAXSTEPS = 60000

    def __init__(self, r, depth=1, db="DictDB", scheme=None, extra=None):
        self.r = r
        SIM.sys = self
        SIM.loops = []
        SIM.errors = []
        self.pools = []
        self.engines = []
        self.clients = []
        self.steps = 0
        self.idle_sleeps = 0
        self.monitor = None
        self._n = itertools.count(1)
        clock.t = clock.t0 = 1_000_000.0
        jsession.new_id = self.new_id
        jsession.new_id_bytes = lambda: self.new_id().encode()
        self.net = FSocket.NET = SNet()
        _ctl_loop[0] = self.loop = SLoop()
        c = Config()
        c.Session.key = KEY
        c.IPController.broadcast_scheduler_depth = depth
        c.IPController.use_threads = True
        c.IPController.mq_class = "sim_relay.Relay"
        c.IPController.log_level = 50
        c.IPController.ports = list(range(20000, 20300))
        c.IPController.restore_engines = False
        c.IPController.enable_curve = False
        c.IPController.db_class = db
        if scheme:
            c.TaskScheduler.scheme_name = scheme
        if extra:
            c.merge(Config(extra))
        app = self.app = IPController(config=c)
        app.profile_dir = PROFILE
        app.write_connection_files = False
        app.mq_class = "sim_relay.Relay"
        app.loop = self.loop
        app.init_hub()
        app.init_schedulers()
        for ch in app.children:
            if hasattr(ch, "start"):
                ch.start()
        base = dict(key=KEY.decode(), curve_serverkey=None, location="127.0.0.1", pack=app.session.packer, unpack=app.session.unpacker,
                    signature_scheme=app.session.signature_scheme, ssh="")
        self.cinfo = json.loads(json.dumps({**app.client_info, **base}))
        self.einfo = json.loads(json.dumps({**app.engine_info, **base}))
        self.hearts = SSocket(zmq.PUB)
        self.hearts.connect(util.disambiguate_url(app.monitor_url))
        self.hsess = Session(key=KEY)
        view_mod.time = _TimeMod(self)
        ar_mod.time = _TimeMod(self)
        client_mod.time = _TimeMod(self)

    # hooks for the recorder
    def on_queued(self, e, frames): pass
    def on_engine_up(self, e): pass
    def on_control(self, e, frames): pass
    def before_exec(self, e, frames): pass
    def after_exec(self, e, frames): pass

    def new_id(self):
        return "%08x-%04d" % (self.r.getrandbits(32), next(self._n))

    def add_engine(self, want=None):
        e = Engine(self, len(self.engines), self.einfo, want)
        self.engines.append(e)
        return e

    def heart(self, e, typ="new_heart"):
        m = self.hsess.msg(typ, content={"hearts": [e.uuid]})
        self.hearts.send_multipart(self.hsess.serialize(m, ident=[b"heartmonitor", b""]))

    def add_client(self, **k):
        c = client_mod.Client(dict(self.cinfo), cluster=None, **k)
        self.clients.append(c)
        return c

    # ------------------------------------------------------------ scheduling
    def choices(self):
        out = [("net", c) for c in self.net.ready()]
        out += [("loop", l) for l in SIM.loops if l.due()]
        out += [("exec", e) for e in self.engines if e.state == "up" and e.queue and not getattr(e, "stuck", False) and not e.busy]
        out += [("coro", e) for e in self.engines if e.state == "asked" and e.pred and e.pred()]
        out += [("beat", e) for e in self.engines if e.beating and e.state == "up"]
        out += [("pool", p) for p in self.pools if p.q]
        return out

    def step(self):
        """one thing happens; returns False if nothing can"""
        ch = self.choices()
        if not ch:
            # what keeps an engine busy ends when nothing else is left to happen
            busy = [e for e in self.engines if e.busy and e.queue and e.state == "up"]
            if not busy:
                return False
            self.r.choice(busy).busy = False
            ch = self.choices()
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooLong()
        k, x = self.pick(ch)
        self.fire(k, x)
        return True

    def pick(self, ch):
        ch.sort(key=lambda c: (c[0], self._key(c)))
        return self.r.choice(ch)

    def _key(self, c):
        k, x = c
        if k == "net":
            return (x[0].n, x[1].n)
        if k == "loop":
            return (SIM.loops.index(x), 0)
        if k == "pool":
            return (self.pools.index(x), 0)
        return (x.n, 0)

    def fire(self, k, x):
        try:
            if k == "net":
                self.deliver(x)
            elif k == "loop":
                owner = next((e for e in self.engines if e.loop is x), None)
                if owner is not None:
                    with owner.on():
                        x.fire_one()
                else:
                    x.fire_one()
            elif k == "exec":
                x.run_next()
            elif k == "coro":
                with x.on():
                    x.advance()
            elif k == "beat":
                x.beating = False
                self.heart(x)
            elif k == "pool":
                x.run_one()
        except Exception as e:   # an event loop logs it and goes on
            import traceback
            self.errors_tb = traceback.format_exc()
            SIM.errors.append(repr(e))
        pump()

    def deliver(self, c):
        self.net.step(c)
        pump()

    def timers(self):
        ds = [l.next_deadline() for l in SIM.loops]
        ds = [d for d in ds if d is not None]
        return min(ds) if ds else None

    def block(self, pred, timeout):
        """a thread waits for pred: let other things happen"""
        if pred():
            return True
        if Cur.engine is not None and timeout is None:
            raise Hang()
        end = None if timeout is None else clock.t + max(0, timeout)
        while True:
            if pred():
                return True
            if end is not None and clock.t >= end - 1e-9:
                return False
            if not self.step():
                d = self.timers()
                if end is None and d is None:
                    raise Hang()
                if end is None and d > clock.t + 3600:
                    raise Hang()
                nxt = min(x for x in (d, end) if x is not None)
                clock.t = max(clock.t, nxt)
                continue
            if end is not None and self.r.random() < .5:
                clock.t += self.r.choice([.01, .05, .1, .5])

    def sleep(self, dt):
        n = self.r.randint(0, 12)
        moved = False
        for _ in range(n):
            if not self.step():
                break
            moved = True
        clock.t += dt
        if not moved and not self.choices() and self.timers() is None:
            self.idle_sleeps += 1
            if self.idle_sleeps > 100:
                raise Hang()
        else:
            self.idle_sleeps = 0

    def run(self, n):
        for _ in range(n):
            if not self.step():
                return False
        return True

    def settle(self, until=None):
        """everything that is under way is finished"""
        while self.step():
            pass

    def drain_clients(self):
        """callbacks already handed to a client's own loop"""
        for c in self.clients:
            l = getattr(c, "_io_loop", None)
            while isinstance(l, SLoop) and l.due():
                l.fire_one()


class _TimeMod:
    """the time module as client code sees it"""
    def __init__(self, s):
        self._s = s

    def sleep(self, dt):
        self._s.sleep(dt)

    def perf_counter(self):
        return clock.t

    monotonic = time = perf_counter

    def __getattr__(self, k):
        return getattr(time, k)


def cleanup():
    shutil.rmtree(TMP, ignore_errors=True)
