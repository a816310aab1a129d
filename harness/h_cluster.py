"""Real Cluster objects and local launchers over a simulated operating system: processes, signals, waiting and time.
usage: h_cluster.py OUT random SEED COUNT PROFILES | script SEED 0 FILE"""
import asyncio, collections.abc, contextvars, glob, heapq, json, logging, os, random, re, shutil, signal, sys, tempfile, threading, types
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
HOME = tempfile.mkdtemp(prefix="vcl")
os.environ["HOME"] = os.environ["IPYTHONDIR"] = HOME
import psutil
from ipyparallel.cluster import cluster as CL, launcher as LA

CALL = contextvars.ContextVar("call", default=0)
EP = contextvars.ContextVar("ep", default=0)
HERE = threading.local()
CID = "c1"
real_sleep = asyncio.sleep
W = None


class Gone(BaseException):
    "the thread's process is no more"


class P:
    def __init__(self, w, pid, ep, kind, c):
        r = w.r
        self.pid, self.ep, self.kind, self.c = pid, ep, kind, c
        self.alive, self.code, self.reaped, self.how = True, None, False, ""
        self.term = r.choices(["quick", "slow", "deaf"], [8, 1, 1])[0]
        self.stuck = r.random() < w.cfg["stuck"]
        self.files = []

    def gone(self):
        return not self.alive and (self.reaped or self.ep in W.dead_eps)


class World:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.cfg = dict(prof=prof, stuck=.03 if prof == "hard" else 0)
        self.now, self.q, self.n, self.ev = 1000.0, [], 0, []
        self.procs, self.threads, self.dead_eps = {}, [], set()
        self.comps, self.ncomp, self.ncall, self.nobj = {}, 0, 0, 0
        self.fail = 0
        self.pd = tempfile.mkdtemp(prefix="p", dir=HOME)
        self.file = os.path.join(self.pd, "security", f"cluster-{CID}.json")
        self.raw = None
        self.busy = 0
        self.active = set()

    def emit(self, k, **kw):
        self.ev.append(dict(k=k, t=int(round(self.now * 1000)), **kw))

    # time
    def at(self, dt, fn, ep=0):
        self.n += 1
        heapq.heappush(self.q, (self.now + dt, self.n, fn, ep))

    def run_until(self, t):
        while self.q and self.q[0][0] <= t:
            when, _, fn, ep = heapq.heappop(self.q)
            if ep and ep in self.dead_eps:
                continue
            self.now = max(self.now, when)
            fn()
        self.now = max(self.now, t)

    def sync_sleep(self, dt):
        me = getattr(HERE, "th", None)
        if me:
            t = self.now + dt
            self.at(dt, self.poke, me.ep)
            me.park(lambda: self.now >= t)
        else:
            self.run_until(self.now + dt)

    async def sleep(self, dt, result=None):
        if dt <= 0:
            return await real_sleep(0, result)
        fut = asyncio.get_running_loop().create_future()
        self.at(dt, lambda: fut.done() or fut.set_result(result), EP.get())
        return await fut

    # processes
    def spawn(self, args, stdout=None, stderr=None, stdin=None, env=None, cwd=None, **kw):
        if self.fail:
            self.fail -= 1
            if not self.fail:
                self.emit("nofork", id=CALL.get())
                for q in self.procs.values():   # whom the failing start has to stop can be killed
                    if q.alive and q.kind == "eng":
                        q.stuck = False
                raise OSError("Cannot allocate memory")
        out = ""
        try:
            out = os.readlink(f"/proc/self/fd/{stdout}")
        except OSError:
            pass
        kind = "ctl" if any("ipyparallel.controller" in a for a in args) else "eng" if any("ipyparallel.engine" in a for a in args) else "?"
        name, idx = "", 0
        if kind == "eng":
            m = re.match(rf"ipengine-{CID}-(.*)-(\d+)\.log$", os.path.basename(out))
            name, idx = (m[1], int(m[2])) if m else ("?", 0)
        key = (CALL.get(), name)
        if key not in self.comps:
            self.ncomp += 1
            self.comps[key] = self.ncomp
        c = self.comps[key]
        pid = 5000 + len(self.procs)
        p = self.procs[pid] = P(self, pid, EP.get(), kind, c)
        e = env or {}
        conn = 0
        if e.get("IPP_CONNECTION_INFO"):
            conn = json.loads(e["IPP_CONNECTION_INFO"])["pid"]
        ok = e.get("IPP_CLUSTER_ID") == CID and e.get("IPP_PROFILE_DIR") == self.pd and bool(kw.get("start_new_session")) and args[:1] == [sys.executable]
        self.emit("spawn", id=CALL.get(), c=c, name=name, idx=idx, pid=pid, kind=kind, conn=conn, ok=bool(ok))
        if os.path.isfile(out):
            with open(out, "a") as f:
                f.write(f"I am {pid}\n")
        if kind == "ctl":
            self.conn_files(p)
        if self.r.random() < self.cfg.get("early", 0):
            self.at(self.r.choice([.02, .3, 1, 2.5]), lambda: self.die(pid, self.r.choice([0, 1, 1])))
        self.look()
        return types.SimpleNamespace(pid=pid, wait=lambda timeout=None: 0, poll=lambda: None, returncode=None)

    def conn_files(self, p):
        def put(kind, half=False):
            def go():
                if p.alive:
                    f = os.path.join(self.pd, "security", f"ipcontroller-{CID}-{kind}.json")
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    txt = json.dumps(dict(pid=p.pid, kind=kind))
                    with open(f, "w") as fo:
                        fo.write(txt[:9] if half else txt)
                    p.files.append(f)
            return go
        t = self.r.choice([.05, .2, .5, 1.2])
        if self.r.random() < self.cfg.get("mute", 0):
            return
        if self.r.random() < .3:
            self.at(t, put("client"))
            t += self.r.choice([.05, .2])
            self.at(t, put("engine", True))
            self.at(t + self.r.choice([.05, .3]), put("engine"))
        else:
            self.at(t, put("client"))
            self.at(t, put("engine"))

    def die(self, pid, code, clean=False):
        p = self.procs[pid]
        if p.alive:
            p.alive, p.code = False, code
            if clean:
                for f in p.files:
                    if os.path.exists(f):
                        try:
                            mine = json.load(open(f))["pid"] == pid
                        except ValueError:
                            mine = False
                        if mine:
                            os.remove(f)
            self.emit("die", pid=pid, code=code, clean=clean)
            self.wake()

    def wake(self):
        for th in self.threads:
            if th.ready():
                self.at(self.r.choice([0, .01, .01, .05]), self.poke, th.ep)

    def poke(self):
        for th in list(self.threads):
            if th.ready() and th.ep not in self.dead_eps:
                th.resume()

    def kill(self, p, sig):
        if not p.alive:
            return
        self.emit("sig", id=CALL.get(), pid=p.pid, sig=int(sig))
        r = self.r
        if sig == signal.SIGKILL:
            self.at(100 if p.stuck else r.choice([0, .1, .5]), lambda: self.die(p.pid, -9))
        elif sig == signal.SIGTERM:
            if p.term != "deaf":
                c = r.choice([0, 0, -15, 1])
                self.at(r.choice([.05, .5, 2]) if p.term == "quick" else r.choice([6, 20]), lambda: self.die(p.pid, c, True))
        elif sig == signal.SIGINT and r.random() < .3:
            self.at(.1, lambda: self.die(p.pid, 1))

    # what a reader of the cluster file sees
    def look(self):
        try:
            with open(self.file) as f:
                raw = f.read()
        except FileNotFoundError:
            raw = None
        if raw == self.raw:
            return
        self.raw = raw
        e = dict(there=raw is not None, ok=True, ctl=0, sets=[])
        if raw is not None:
            try:
                d = json.loads(raw)
                st = (d.get("controller") or {}).get("state") or {}
                e["ctl"] = st.get("pid", 0)
                e["ok"] = d["cluster"]["cluster_id"] == CID and d["cluster"]["profile_dir"] == self.pd
                for name, s in d["engines"]["sets"].items():
                    e["sets"].append(dict(name=name, pids=sorted(x["pid"] for x in s["engines"].values() if x["pid"] > 0)))
            except (ValueError, KeyError, TypeError):
                e["ok"] = False
        self.emit("file", **e)


class Process:
    def __init__(self, pid=None):
        p = W.procs.get(pid)
        if p is None or p.gone():
            raise psutil.NoSuchProcess(pid)
        self.pid, self.p, self.done, self.code = pid, p, False, None

    def child(self):
        me = getattr(HERE, "th", None)
        return self.p.ep == (me.ep if me else EP.get())

    def ended(self, child):
        return self.done or (not self.p.alive if child and not self.p.reaped else self.p.gone())

    def wait(self, timeout=None):
        me = getattr(HERE, "th", None)
        child = self.child()
        if not self.ended(child):
            if me is None:
                if timeout is None or timeout > 0:
                    W.run_until(W.now + (timeout or 0))
            else:
                if timeout is not None:
                    end = W.now + timeout
                    W.at(timeout, W.poke, me.ep)
                    me.park(lambda: self.ended(child) or W.now >= end)
                else:
                    me.park(lambda: self.ended(child))
        if not self.ended(child):
            raise psutil.TimeoutExpired(timeout, self.pid)
        if not self.done:
            self.done = True
            if child and not self.p.reaped:
                self.p.reaped, self.code = True, self.p.code
                W.wake()
        return self.code

    def is_running(self):
        return not self.p.gone()

    def status(self):
        if self.p.gone():
            raise psutil.NoSuchProcess(self.pid)
        return psutil.STATUS_RUNNING if self.p.alive else psutil.STATUS_ZOMBIE

    def send_signal(self, sig):
        if self.p.gone():
            raise psutil.NoSuchProcess(self.pid)
        W.kill(self.p, sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)


class Thr:
    """a thread that runs only when it is its turn"""
    def __init__(self, target=None, args=(), kwargs=None, daemon=None, name=None, **kw):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.ctx = contextvars.copy_context()
        self.ctx.run(CALL.set, -1)
        self.ep = EP.get()
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.name, self.daemon = name, daemon
        self.state, self.cond = "new", None

    def start(self):
        self.t = threading.Thread(target=self._main, daemon=True)
        self.t.start()
        W.threads.append(self)
        self.state, self.cond = "parked", lambda: True
        if W.r.random() < .7:
            self.resume()
        else:
            W.at(W.r.choice([0, .02]), W.poke, self.ep)

    def _main(self):
        self.go.acquire()
        HERE.th = self
        try:
            if self.state != "over":
                self.ctx.run(self.target, *self.args, **self.kwargs)
        except Gone:
            pass
        except BaseException as e:
            W.emit("raised", what=f"{type(e).__name__}: {e}"[:200])
        self.state = "done"
        self.back.release()

    def resume(self):
        self.state = "running"
        self.go.release()
        self.back.acquire()
        if self.state == "done" and self in W.threads:
            W.threads.remove(self)

    def park(self, cond):
        while not cond():
            self.state, self.cond = "parked", cond
            self.back.release()
            self.go.acquire()
            if self.state == "over":
                raise Gone()

    def ready(self):
        return self.state == "parked" and self.cond()

    def is_alive(self):
        return self.state in ("parked", "running")

    def join(self, timeout=None):
        end = W.now + (1000 if timeout is None else timeout)
        while self.is_alive() and W.now < end:
            if W.q and W.q[0][0] < end:
                W.run_until(W.q[0][0])
            else:
                W.run_until(end)

    def stop(self):
        if self.is_alive():
            self.state = "over"
            self.go.release()
            self.t.join(5)


class Proxy:
    def __init__(self, mod, **kw):
        self.__dict__.update(kw)
        self._mod = mod

    def __getattr__(self, k):
        return getattr(self._mod, k)


def install():
    import time
    tp = Proxy(time, time=lambda: W.now + 1.6e9, monotonic=lambda: W.now, perf_counter=lambda: W.now, sleep=lambda dt: W.sync_sleep(dt))
    ap = Proxy(asyncio, sleep=lambda *a, **k: W.sleep(*a, **k))
    pp = Proxy(psutil, Process=Process, pid_exists=lambda pid: pid in W.procs and not W.procs[pid].gone())
    LA.time = CL.time = tp
    LA.asyncio = CL.asyncio = ap
    LA.psutil = pp
    LA.Thread = Thr
    LA.Popen = lambda *a, **k: W.spawn(*a, **k)

    class H(logging.Handler):
        def emit(self, rec):
            if rec.exc_info and W is not None:
                W.emit("raised", what=repr(rec.exc_info[1])[:200])
    for n in ("tornado.application", "asyncio"):
        lg = logging.getLogger(n)
        lg.addHandler(H())
        lg.propagate = False
    for n in ("ipyparallel", "ipyparallel.cluster.cluster." + CID, "traitlets", CL.__name__):
        lg = logging.getLogger(n)
        lg.setLevel(logging.INFO)
        lg.addHandler(logging.NullHandler())
        lg.propagate = False
    src = CL.__file__

    def local(frame, event, arg):
        if event != "call" and W is not None and getattr(HERE, "th", None) is None:
            W.look()
        return local

    def tr(frame, event, arg):
        return local if frame.f_code.co_filename == src else None
    sys.settrace(tr)


class Obj:
    def __init__(self, w, cluster=None):
        w.nobj += 1
        self.o, self.ep = w.nobj, w.nobj
        self.c = cluster
        self.told = set()


def mk(w):
    o = Obj(w)
    EP.set(o.ep)
    o.c = CL.Cluster(cluster_id=CID, profile_dir=w.pd, load_profile=False, shutdown_atexit=False, delay=w.r.choice([0, 1.0]), n=w.r.choice([1, 2]))
    w.emit("new", o=o.o, n=o.c.n)
    return o


def comp_of(w, la, name):
    d = la.to_dict()
    pids = [x["pid"] for x in d["engines"].values()] if "engines" in d else [d["pid"]]
    cs = {w.procs[p].c for p in pids if p in w.procs}
    return (cs.pop() if len(cs) == 1 else 0), pids


def watch(w, o, la, c):
    if (c, id(la)) in o.told or any(cc == c and key[0] in w.active for key, cc in w.comps.items()):
        return
    o.told.add((c, id(la)))

    def cb(data):
        code = (data or {}).get("exit_code")
        w.look()
        w.emit("told", o=o.o, c=c, code=code if isinstance(code, int) else 999)
    w.emit("watch", o=o.o, c=c)
    la.on_stop(cb)


def watch_all(w, o):
    if o.c.controller is not None:
        c, _ = comp_of(w, o.c.controller, "")
        if c:
            watch(w, o, o.c.controller, c)
    for name, es in o.c.engines.items():
        c, _ = comp_of(w, es, name)
        if c:
            watch(w, o, es, c)


async def call(w, o, op, name="", n=-1, sig=0, allow=()):
    w.ncall += 1
    i = w.ncall
    CALL.set(i)
    EP.set(o.ep)
    w.active.add(i)
    w.emit("call", id=i, o=o.o, op=op, name=name, n=n, sig=sig, live=sorted(p for p in w.procs if w.procs[p].alive))
    c = o.c
    res = ""
    try:
        if op == "start_controller":
            await c.start_controller()
        elif op == "start_engines":
            res = await c.start_engines(None if n < 0 else n, name or None)
        elif op == "start_cluster":
            await c.start_cluster(None if n < 0 else n)
        elif op == "stop_controller":
            await c.stop_controller()
        elif op == "stop_engines":
            await c.stop_engines(name or None)
        elif op == "stop_cluster":
            await c.stop_cluster()
        elif op == "restart_engines":
            await c.restart_engines(name or None)
        elif op == "signal_engines":
            await c.signal_engines(sig, name or None)
        st, exc = True, ""
    except Exception as e:
        st, exc = False, type(e).__name__
    w.look()
    w.active.discard(i)
    w.emit("ret", id=i, ok=st, exc=exc, name=res or "")
    if st:
        watch_all(w, o)


async def do(w, o, *a, **k):
    EP.set(o.ep)
    t = asyncio.ensure_future(call(w, o, *a, **k))
    for _ in range(5000):
        await settle(w, 4)
        if t.done():
            return
        w.run_until(w.q[0][0] if w.q else w.now + 1)
    w.emit("raised", what="a call never returns")


async def settle(w, n=12):
    for _ in range(n):
        await real_sleep(0)


async def rest(w, objs):
    """until nothing happens any more"""
    for k in range(6000):
        await settle(w, 6)
        th = [t for t in w.threads if t.ep not in w.dead_eps and t.ready()]
        if not w.active and not th and not any(not p.alive and not p.reaped and p.ep not in w.dead_eps for p in w.procs.values()) \
                and not any(q[0] <= w.now for q in w.q):
            await settle(w, 8)
            if not w.active:
                return True
        if w.q:
            w.run_until(w.q[0][0])
        else:
            w.run_until(w.now + 1)
    return False


def quiet(w, objs):
    w.look()
    for o in objs:
        if o.c is None:
            continue
        c = o.c.controller
        w.emit("quiet", o=o.o, ctl=bool(c is not None and c.running), sets=sorted(n for n, es in o.c.engines.items() if es.running))


def crash(w, o):
    w.dead_eps.add(o.ep)
    w.active.clear()
    for p in w.procs.values():
        if p.ep == o.ep and not p.alive:
            p.reaped = True
    w.emit("crash", o=o.o)
    w.wake()
    GRAVE.append(o)


GRAVE = []


def take(w, how):
    o = Obj(w)

    def go():
        EP.set(o.ep)
        CALL.set(0)
        if not os.path.exists(w.file):
            return None
        if how == "manager":
            m = CL.ClusterManager()
            cs = m.load_clusters(profile_dirs=[w.pd])
            GRAVE.append(m)
            return list(cs.values())[0] if len(cs) == 1 else None
        if how == "id":
            return CL.Cluster.from_file(profile_dir=w.pd, cluster_id=CID)
        return CL.Cluster.from_file(w.file)
    w.emit("taking", o=o.o, there=os.path.exists(w.file))
    exc = ""
    try:
        o.c = contextvars.copy_context().run(go)
    except Exception as e:
        exc = type(e).__name__
    w.look()
    e = dict(o=o.o, ok=o.c is not None, exc=exc, ctl=0, sets=[], n=-1)
    if o.c is not None:
        e["n"] = -1 if o.c.n is None else o.c.n
        if o.c.controller is not None and o.c.controller.running:
            e["ctl"] = o.c.controller.to_dict()["pid"]
        for name, es in o.c.engines.items():
            if es.running:
                e["sets"].append(dict(name=name, pids=sorted(x["pid"] for x in es.to_dict()["engines"].values()), n=es.n))
    w.emit("took", **e)
    if o.c is not None:
        watch_all(w, o)
    return o if o.c is not None else None


def clean(w):
    before = os.path.exists(w.file)
    w.nclean = ep = getattr(w, "nclean", 0) - 1   # a process of its own, that ends right afterwards

    def go():
        EP.set(ep)
        CALL.set(0)
        CL.clean_cluster_files(profile_dirs=[w.pd])
    for f in ("log/x.log", f"security/ipcontroller-zz-engine.json"):
        os.makedirs(os.path.dirname(os.path.join(w.pd, f)), exist_ok=True)
        open(os.path.join(w.pd, f), "w").close()
    exc = ""
    w.emit("cleaning", there=before)
    try:
        contextvars.copy_context().run(go)
    except Exception as e:
        exc = type(e).__name__
    w.dead_eps.add(ep)
    w.look()
    left = len(glob.glob(os.path.join(w.pd, "log", "*"))) + len(glob.glob(os.path.join(w.pd, "security", "ipcontroller-*")))
    w.emit("cleaned", exc=exc, left=left, there=os.path.exists(w.file))


NAMES = ["a", "b", "x-1"]


async def random_play(w):
    r, prof = w.r, w.cfg["prof"]
    w.cfg["early"] = r.choice([0, 0, .15]) if prof != "calm" else 0
    w.cfg["mute"] = .1 if prof == "hard" else 0
    cur = mk(w)
    other = None
    tasks = []
    GRAVE.append(tasks)
    objs = lambda: [x for x in (cur, other) if x]

    def start(o, *a, **k):
        ctx = contextvars.copy_context()
        ctx.run(EP.set, o.ep)
        tasks.append(asyncio.get_running_loop().create_task(call(w, o, *a, **k), context=ctx) if sys.version_info >= (3, 11)
                     else ctx.run(asyncio.get_running_loop().create_task, call(w, o, *a, **k)))

    par = r.choice([1, 1, 2, 3]) if prof != "calm" else 1
    start(cur, r.choice(["start_cluster", "start_cluster", "start_controller", "start_engines"]), n=r.choice([1, 2, 3]))
    for step in range(r.randint(5, 22)):
        await settle(w, r.choice([0, 1, 2, 3, 12]))
        x = r.random()
        alive = [p for p in w.procs.values() if p.alive]
        if len(w.active) >= par or x < .2:
            if r.random() < .4:
                await rest(w, objs())
                quiet(w, objs())
            else:
                w.run_until(w.now + r.choice([.01, .1, .1, .5, 1, 4]))
            continue
        if x < .4 and alive:
            p = r.choice(alive)
            group = [q for q in alive if q.c == p.c] if r.random() < .4 else [p]
            for q in group:
                code = r.choice([0, 1, 1, 3, -11])
                w.die(q.pid, code)
            continue
        if other is None and x < .5:
            if r.random() < .75:
                await settle(w)
                crash(w, cur)
                for p in list(w.procs.values()):
                    if p.alive and r.random() < r.choice([0, .3, 1]):
                        w.die(p.pid, 1)
                if r.random() < .3:
                    w.run_until(w.now + 1)
                    if not any(q.kind == "x" for q in w.procs.values()):
                        clean(w)
                w.run_until(w.now + r.choice([0, .1, 3]))
                cur = take(w, r.choice(["file", "id", "manager"]))
                if cur is None:
                    left = [p for p in w.procs.values() if p.alive]
                    for p in left:
                        w.die(p.pid, 0)
                    cur = mk(w)
            elif prof != "calm":
                await rest(w, objs())
                quiet(w, objs())
                if r.random() < .2:
                    clean(w)
                    w.emit("look", o=cur.o)
                other = take(w, r.choice(["file", "id", "manager"]))
                if other:
                    par = 1
            continue
        o = other or cur
        sets = list(o.c.engines)
        nm = r.choice(sets) if sets and r.random() < .85 else r.choice(NAMES)
        ops = ["stop_engines", "stop_engines", "stop_cluster", "signal_engines", "signal_engines", "stop_controller"]
        if not other:
            ops += ["start_controller", "start_engines", "start_engines", "start_engines", "restart_engines", "restart_engines", "start_cluster"]
        op = r.choice(ops)
        if op == "signal_engines":
            start(o, op, r.choice([nm, ""]), sig=r.choice([2, 2, 10, 15]))
        elif op in ("stop_engines", "restart_engines"):
            start(o, op, r.choice([nm, nm, ""]))
        elif op == "start_engines":
            if prof == "hard" and r.random() < .3:
                w.fail = r.choice([1, 2, 3])
            start(o, op, r.choice(["", r.choice(NAMES)]), n=r.choice([1, 2, 3, -1]))
        elif op == "start_cluster":
            start(o, op, n=r.choice([1, 2, -1]))
        else:
            if op == "start_controller" and prof == "hard" and r.random() < .2:
                w.fail = 1
            start(o, op)
        if other and r.random() < .3:
            await rest(w, objs())
            quiet(w, objs())
            crash(w, other)
            other = None
    await wind_up(w, [x for x in (cur, other) if x])


async def wind_up(w, objs):
    await rest(w, objs)
    quiet(w, objs)
    for k in range(4):
        await do(w, objs[0], "stop_cluster")
        await rest(w, objs)
        if not any(p.alive for p in w.procs.values()):
            break
        w.run_until(w.now + 150)
    await rest(w, objs)
    quiet(w, objs)
    w.emit("end")


async def script_play(w, ops):
    r = w.r
    cur = mk(w)
    comp = {}
    for op in ops:
        k, c = op["k"], op["c"]
        if k == "ctl":
            await do(w, cur, "start_controller")
            comp[c] = (w.ncall, "")
        elif k == "set":
            if op["n"] == 0:
                return False
            await do(w, cur, "start_engines", f"s{c}", n=op["n"])
            comp[c] = (w.ncall, f"s{c}")
        elif k == "die":
            cc = w.comps.get(comp[c])
            ps = [p for p in w.procs.values() if p.c == cc]
            i = op["n"] - 1
            if i < len(ps) and ps[i].alive:
                w.die(ps[i].pid, r.choice([0, 1, 2]))
        elif k == "stop":
            name = comp[c][1]
            await (do(w, cur, "stop_engines", name) if name else do(w, cur, "stop_controller"))
        elif k == "stopall":
            await do(w, cur, "stop_cluster")
        elif k == "take":
            await settle(w)
            crash(w, cur)
            w.run_until(w.now + .1)
            new = take(w, r.choice(["file", "id", "manager"]))
            if new is None:
                if any(p.alive for p in w.procs.values()):
                    break
                new = mk(w)
            cur = new
        if r.random() < .5:
            await rest(w, [cur])
            quiet(w, [cur])
        else:
            await settle(w, r.choice([0, 3, 12]))
    await wind_up(w, [cur])


class Guard(collections.abc.Coroutine):
    "a task of a process that is no more goes no further"
    def __init__(self, coro, loop):
        self.coro, self.loop = coro, loop

    def send(self, v):
        if EP.get() in W.dead_eps:
            f = self.loop.create_future()
            f._asyncio_future_blocking = True
            GRAVE.append((f, self.coro))
            return f
        return self.coro.send(v)

    def throw(self, *a):
        if EP.get() in W.dead_eps:
            return self.send(None)
        return self.coro.throw(*a)

    def close(self):
        return self.coro.close()

    def __await__(self):
        return self

    __iter__ = __await__

    def __next__(self):
        return self.send(None)


def guard(loop, coro, **kw):
    return asyncio.Task(Guard(coro, loop) if not isinstance(coro, Guard) and asyncio.iscoroutine(coro) else coro, loop=loop, **kw)


async def guarded(coro):
    asyncio.get_running_loop().set_task_factory(guard)
    return await coro


def play(seed, prof, ops=None):
    global W
    w = W = World(seed, prof)
    cwd = os.getcwd()
    os.chdir(w.pd)
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    bad = loop.run_until_complete(guarded(random_play(w) if ops is None else script_play(w, ops)))
    for th in list(w.threads):
        th.stop()
    os.chdir(cwd)
    shutil.rmtree(w.pd, ignore_errors=True)
    KEEP.append(loop)
    return dict(id=f"cluster-{prof}-{seed}", cfg=dict(seed=seed, prof=prof), ev=w.ev)


KEEP = []


def main():
    out, mode, seed, count, arg = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    install()
    with open(out, "w") as fo:
        if mode == "random":
            profs = arg.split(",")
            for i in range(count):
                fo.write(json.dumps(play(seed * 100003 + i, profs[i % len(profs)])) + "\n")
        else:
            for i, l in enumerate(open(arg)):
                fo.write(json.dumps(play(seed * 100003 + i, "calm", json.loads(l)["ops"])) + "\n")
    sys.settrace(None)
    shutil.rmtree(HOME, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    try:
        main()
    except BaseException:
        import traceback
        sys.settrace(None)
        traceback.print_exc()
        sys.stderr.flush()
        shutil.rmtree(HOME, ignore_errors=True)
        os._exit(1)
