"""Drive the namespaces of engines through real clients against the whole simulated system.
usage: h_ns.py OUT random SEED COUNT PROFILES | OUT script SEED COUNT FILE"""
from h_client import *
import numpy
from ipyparallel import Reference
from types import FunctionType

KINDS = {"NameError": "name", "TypeError": "type", "SimError": "fail", "EngineError": "died", "TaskAborted": "abort"}
_ctl = Engine.on_control


def on_control(self, frames):
    _ctl(self, frames)
    self.sys.after_control(self, frames)


Engine.on_control = on_control


# ---------------------------------------------------------------- values

def make(kind, toks):
    t = toks[0] if toks else 0
    if kind == "s":
        return t
    if kind == "l":
        return list(toks)
    if kind == "t":
        return tuple(toks)
    if kind == "a":
        return numpy.array(toks, dtype="int64")
    if kind == "A":
        return numpy.array([[x, -x] for x in toks], dtype="int64").reshape(len(toks), 2)
    if kind == "r":
        return range(t, t + len(toks))
    if kind == "d":
        return dict.fromkeys(toks)
    if kind == "n":
        return {"n": (t, [list(toks), {"m": numpy.array(toks, dtype="int64")}])}
    if kind == "b":
        return (b"%08d" % t) * 400
    if kind == "f":
        g = {"__name__": "__main__"}
        exec(f"def f(x={t}):\n return x", g)
        return g["f"]
    if kind == "o":
        return simtasks.Obj(t)


def enc(v):
    k, t = _enc(v)
    return {"k": k, "v": [int(x) for x in t]}


def isint(x):
    return isinstance(x, (int, numpy.integer)) and not isinstance(x, bool)


def _enc(v):
    if isint(v):
        return "s", [v]
    if type(v) is list and all(isint(x) for x in v):
        return "l", v
    if type(v) is tuple and all(isint(x) for x in v):
        return "t", v
    if type(v) is range:
        return "r", list(v)
    if isinstance(v, numpy.ndarray) and v.dtype == numpy.int64:
        if v.ndim == 1:
            if len(v) == 2 and v[1] == -v[0]:
                return "R", v[:1]
            return "a", v
        if v.ndim == 2 and v.shape[1] == 2 and all(r[0] == -r[1] for r in v):
            return "A", v[:, 0]
    if type(v) is bytes and len(v) == 3200 and v == v[:8] * 400:
        return "b", [int(v[:8])]
    if type(v) is FunctionType:
        try:
            x = v()
        except Exception:
            return "?", []
        return ("f", [x]) if isint(x) else ("?", [])
    if isinstance(v, simtasks.Obj) and v.ok():
        return "o", [v.t]
    if type(v) is dict and list(v) == ["n"]:
        x = v["n"]
        try:
            if type(x) is tuple and type(x[1]) is list and type(x[1][0]) is list and _enc(x[1][1]["m"]) [0] == "a" and list(x[1][1]["m"]) == x[1][0] and x[0] == x[1][0][0]:
                return "n", x[1][0]
        except Exception:
            pass
    return "?", []


def snap(e):
    # (names that begin with two underscores belong to the interpreter)
    return {k: enc(v) for k, v in e.shell.user_ns.items() if not k.startswith("__")}


class NWorld(World):
    KEEP = {"kill", "op", "nrun", "clr", "clear", "clrd", "snap", "res", "ref"}

    def __init__(self, r, cfg):
        self.no = 0
        self.tok = 0
        self.res = {}
        self.clears = {}
        self.nclr = 0
        super().__init__(r, cfg)

    def log(self, **k):
        if k["k"] in self.KEEP:
            if k["k"] == "nrun":
                k["k"] = "run"
            self.ev.append(k)

    def see_note(self, ci, frames): pass
    def see_iopub(self, ci, c, frames): pass
    def see_reply(self, ci, c, frames): pass

    # ------------------------------------------------------------ what engines do
    def before_exec(self, e, frames):
        super().before_exec(e, frames)
        # after an error that was not silent, a kernel refuses the code that is waiting
        self.cur_ab = self.cur_type == "execute_request" and bool(getattr(e.kernel, "_aborting", False))

    def after_exec(self, e, frames):
        self.bind()
        m = self.cur_msg
        if m.endswith("_" + e.uuid):
            m = m if m in self.by_msg else m[:-len(e.uuid) - 1]
        self.log(k="nrun", o=self.by_msg.get(m, 0), e=e.n + 1, ns=snap(e), ab=self.cur_ab)
        self.cur_msg = None

    def bind(self):
        if self.pending_bind:
            c, n0, o = self.pending_bind
            for m in c.history[n0:]:
                self.by_msg[m] = o

    def on_control(self, e, frames): pass

    def after_control(self, e, frames):
        self.s0.digest_history.clear()
        idents, ml = self.s0.feed_identities(frames)
        m = self.s0.deserialize(ml, content=True)
        if m["header"]["msg_type"] == "clear_request":
            ci = next((i + 1 for i, c in enumerate(self.clients) if c.session.session == m["header"]["session"]), 0)
            q = self.clears.get((ci, e.n + 1))
            self.log(k="clear", o=q.pop(0) if q else 0, e=e.n + 1, ns=snap(e))

    # ------------------------------------------------------------ requests
    def val(self, kind=None, n=None):
        r = self.r
        kind = kind or r.choice("slllltaArnbfo")
        n = r.choice([0, 1, 2, 3, 5]) if n is None else n
        if kind in "sbfonR":
            n = max(n, 1) if kind == "n" else 1
        if kind == "a" and r.random() < .2:
            n = 300
        t0 = self.tok + 1
        self.tok += n
        return {"k": kind, "v": list(range(t0, t0 + n))}

    def op(self, c, mode, targets, progs, ret, go, single=None, any=False, dist="", block=False, loud=0, **x):
        """go() makes the call; what it returns is an AsyncResult, or what it returned when block"""
        ci = self.cno[id(c)]
        tab = self.table(c)
        es = [] if any else [tab[i] for i in resolve(targets, sorted_ids(c), tab)]
        if not any and not es:
            return None
        self.no += 1
        o = self.no
        single = isinstance(targets, int) if single is None else single
        if progs is not None and not callable(progs):
            p = progs
            progs = [p] * (1 if any else len(es))
        self.log(k="op", o=o, c=ci, mode=mode, es=es, any=any, single=single, ret=ret, dist=dist, progs=progs or [], loud=loud, **x)
        info = dict(o=o, es=es, any=any, single=single or any, ret=ret, c=c)
        self.pending_bind = (c, len(c.history), o)
        try:
            res = go()
        except (Hang, TooLong):
            self.log(k="ref", o=o, ex="hang")
        except Exception as e:
            if block and isinstance(e, (error.RemoteError, error.CompositeError, error.TaskAborted)) or block and ret == "gather" and isinstance(e, (ValueError, TypeError, AttributeError)):
                self.told(info, e)
            else:
                import traceback
                self.tb = traceback.format_exc()
                self.log(k="ref", o=o, ex=type(e).__name__ + " " + simtasks.tame(str(e)[:40]))
        else:
            if block == "wait":
                self.log(k="res", o=o, st="wait", v=[], errs=[], at=0)
            elif block:
                self.told(info, res)
            else:
                self.res[o] = dict(info, ar=res)
        self.bind()
        self.pending_bind = None
        return o

    def told(self, info, x):
        d = dict(st="ok", v=[], errs=[], at=0)
        one = info["single"] and info["ret"] != "gather"
        L = lambda v: [v] if one else list(v) if isinstance(v, (list, tuple)) else [GARB]
        if isinstance(x, error.CompositeError):
            d.update(st="err", errs=[[self.eng_of(y[3]), KINDS.get(y[0], y[0])] for y in x.elist])
        elif isinstance(x, error.RemoteError):
            d.update(st="err", errs=[[self.eng_of(x.engine_info), KINDS.get(x.ename, x.ename)]])
        elif isinstance(x, error.TaskAborted):
            d.update(st="err", errs=[[0, "abort"]])
        elif info["ret"] == "gather" and isinstance(x, (ValueError, TypeError, AttributeError)):
            d.update(st="odd")
        elif isinstance(x, BaseException):
            d.update(st="bug:" + type(x).__name__ + simtasks.tame(str(x)[:40]))
        elif info["ret"] in ("none", "scatter"):
            d["v"] = [[] if y is None or isinstance(y, ExecuteReply) else [enc("?")] for y in L(x)]
        elif info["ret"] == "gather":
            d["v"] = [[enc(x)]]
        elif info["ret"] == "one":
            d["v"] = [[enc(y)] for y in L(x)]
        else:
            d["v"] = [[enc(z) for z in y] if isinstance(y, list) else [enc(y)] for y in L(x)]
        self.log(k="res", o=info["o"], **d)

    def look(self, o, to=None):
        i = self.res[o]
        try:
            x = i["ar"].get(to)
        except TimeoutError:
            return
        except (Hang, TooLong):
            x = Exception("hang")
        except Exception as e:
            x = e
        if i["ret"] == "none" and isinstance(x, list) and i["single"] and len(x) == 1:
            x = x[0]
        self.told(i, x)

    def clear(self, c, targets, block, view=None):
        tab = self.table(c)
        ids = resolve(targets, sorted_ids(c), tab)
        if not ids:
            return
        self.nclr += 1
        o = self.nclr
        ci = self.cno[id(c)]
        self.log(k="clr", o=o, c=ci, es=[tab[i] for i in ids])
        for i in ids:
            self.clears.setdefault((ci, tab[i]), []).append(o)
        try:
            if view is not None:
                view.clear(targets=targets, block=block)
            else:
                c.clear(targets=targets, block=block)
            st = "ok"
        except (Hang, TooLong):
            st = "hang"
        except Exception as e:
            st = "err" if isinstance(e, (error.RemoteError, error.CompositeError)) else "bug:" + type(e).__name__
        if block:
            self.log(k="clrd", o=o, st=st)
        elif st != "ok":
            self.log(k="clrd", o=o, st=st)

    def finish(self):
        for e in self.engines:
            e.busy = False
        for _ in range(60):
            self.settle()
            d = self.timers()
            if d is None or d > clock.t + 60:
                break
            clock.t = max(clock.t, d)
        self.settle()
        for e in self.engines:
            if e.state == "up":
                self.log(k="snap", e=e.n + 1, ns=snap(e))
        for o in list(self.res):
            self.look(o)


# ---------------------------------------------------------------- programs and the code that carries them out

NAMES = ["a", "b", "c", "dd"]
Z = {"k": "?", "v": []}


def ins(op, d="", x="", y="", val=None):
    return {"op": op, "d": d, "x": x, "y": y, "val": val or Z}


def real(v):
    return make(v["k"], v["v"])


def as_code(prog):
    out = []
    for i in prog:
        if i["op"] == "set":
            out.append(f"{i['d']} = {real(i['val'])!r}")
        elif i["op"] == "cp":
            out.append(f"{i['d']} = {i['x']}")
        elif i["op"] == "cat":
            out.append(f"{i['d']} = __import__('simtasks').cat({i['x']}, {i['y']})")
        elif i["op"] == "del":
            out.append(f"del {i['x']}")
        elif i["op"] == "fail":
            out.append("raise __import__('simtasks').SimError('<1>')")
        elif i["op"] == "get":
            out.append(i["x"])
    return "\n".join(out)


def as_function(prog, r):
    """a function defined interactively, its arguments"""
    body, pos, kw, clo, dfl = [], [], {}, {}, {}
    names = sorted({n for i in prog for n in (i["d"], i["x"], i["y"]) if n})
    head = True
    for j, i in enumerate(prog):
        how = r.choice(["pos", "pos", "kw", "clo", "dfl"])
        n = f"v{j}"

        def take(v):
            if how == "pos":
                pos.append((n, v))
            elif how == "kw":
                kw[n] = v
            elif how == "clo":
                clo[n] = v
            else:
                dfl[n] = v
            return n
        if i["op"] == "set":
            body.append(f"{i['d']} = {take(real(i['val']))}")
        elif i["op"] == "lit":
            body.append(f"out.append({take(real(i['val']))})")
        elif i["op"] == "get":
            if head and how in ("pos", "kw"):
                body.append(f"out.append({take(Reference(i['x']))})")
            else:
                body.append(f"out.append({i['x']})")
        elif i["op"] == "cp":
            body.append(f"{i['d']} = {i['x']}")
        elif i["op"] == "cat":
            body.append(f"{i['d']} = __import__('simtasks').cat({i['x']}, {i['y']})")
        elif i["op"] == "del":
            body.append(f"del {i['x']}")
        else:
            body.append("raise __import__('simtasks').SimError('<1>')")
        head = head and i["op"] in ("get", "lit")
    params = [n for n, _ in pos] + [f"{n}=None" for n in dfl] + (["*"] + list(kw) if kw else [])
    src = ["def outer(" + ", ".join(clo) + "):", "  def f(" + ", ".join(params) + "):"]
    if names:
        src.append("    global " + ", ".join(names))
    src += ["    out = []"] + ["    " + b for b in body] + ["    return out or None", "  return f"]
    g = {"__name__": "__main__"}
    exec("\n".join(src), g)
    f = g["outer"](*clo.values())
    if dfl:
        f.__defaults__ = tuple(dfl.values())
    return f, [v for _, v in pos], kw


def program(w, r, reads, code=False):
    """a random program; in code, values are what has a literal"""
    p = []
    n = lambda: r.choice(NAMES)
    kinds = "slllt" if code else None
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        x = r.random()
        if x < .3:
            p.append(ins("set", d=n(), val=w.val(r.choice(kinds) if code else None)))
        elif x < .45:
            p.append(ins("cp", d=n(), x=n()))
        elif x < .65:
            p.append(ins("cat", d=n(), x=n(), y=n()))
        elif x < .72:
            p.append(ins("del", x=n()))
        elif x < .76:
            p.append(ins("fail"))
        elif reads and not code:
            p.append(ins("get", x=n()) if x < .9 else ins("lit", val=w.val()))
    if not p:
        p.append(ins("set", d=n(), val=w.val("l")))
    return p


def scenario(seed, prof):
    r = random.Random(seed)
    cfg = {"depth": r.choice([0, 1, 1, 2]), "prof": prof}
    w = NWorld(r, cfg)
    try:
        play(w, r, prof)
        w.finish()
    except TooLong:
        w.log(k="ref", o=0, ex="toolong")
    return {"id": seed, "cfg": cfg, "ev": w.ev}, w


def play(w, r, prof):
    for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5])):
        w.start_engine()
    w.settle()
    cs = [w.new_client() for _ in range(r.choice([1, 1, 2]))]
    w.settle()
    views = {}

    def view(c, mode):
        k = (id(c), mode)
        if k not in views:
            views[k] = {"direct": lambda: c.direct_view("all"), "lb": c.load_balanced_view, "bcast": lambda: c.broadcast_view()}[mode]()
        v = views[k]
        v.block = r.random() < .25
        v.targets = None if mode == "lb" else "all"
        return v

    def targets(c, mode):
        ids = c.ids
        x = r.random()
        if x < .45 or not ids:
            return "all"
        if x < .65 and mode == "direct":
            return r.choice(ids)
        return r.sample(ids, r.randint(1, len(ids)))

    def pick():
        c = r.choice(cs)
        if not c.ids:
            return None
        mode = r.choice(["direct", "direct", "direct", "bcast"])
        v = view(c, mode)
        t = targets(c, mode)
        kw = {}
        if r.random() < .3:
            v.targets = t
        else:
            kw["targets"] = t
        block = r.random() < .3
        if block and r.random() < .5:
            v.block = True
        else:
            kw["block"] = block
        return c, mode, v, t, kw, kw.get("block", v.block)

    def op_push():
        x = pick()
        if not x:
            return
        c, mode, v, t, kw, block = x
        ns, prog = {}, []
        if r.random() < .25:
            d, s = r.choice(NAMES), r.choice(NAMES)
            ns[d] = Reference(s)
            prog.append(ins("cp", d=d, x=s))
        for n in r.sample(NAMES, r.randint(0 if ns else 1, 3)):
            if n not in ns:
                val = w.val()
                ns[n] = real(val)
                prog.append(ins("set", d=n, val=val))
        if "targets" not in kw and r.random() < .5:
            block = v.block = kw.pop("block", v.block)
            w.op(c, mode, t, prog, "none", lambda: v.update(ns), block=block)
        else:
            w.op(c, mode, t, prog, "none", lambda: v.push(ns, **kw), block=block)
        # what was sent does not change any more
        for val in ns.values():
            if type(val) is list:
                val.append(-5)

    def op_setitem():
        x = pick()
        if not x:
            return
        c, mode, v, t, kw, block = x
        v.targets = t
        v.block = True
        n, val = r.choice(NAMES), w.val()
        o = w.op(c, mode, t, [ins("set", d=n, val=val)], "none", lambda: v.__setitem__(n, real(val)), block="wait")

    def op_pull():
        x = pick()
        if not x:
            return
        c, mode, v, t, kw, block = x
        one = r.random() < .6
        ns = r.choice(NAMES) if one else r.sample(NAMES, r.randint(1, 3))
        prog = [ins("get", x=n) for n in ([ns] if one else ns)]
        if r.random() < .3:
            v.targets = t
            w.op(c, mode, t, prog, "one" if one else "many", lambda: v[ns] if r.random() < .5 else v.get(ns), block=True)
        else:
            w.op(c, mode, t, prog, "one" if one else "many", lambda: v.pull(ns, **kw), block=block)

    def op_exec():
        x = pick()
        if not x:
            return
        c, mode, v, t, kw, block = x
        prog = program(w, r, False, True)
        code = as_code(prog)
        if mode == "direct" and r.random() < .3:
            fn = os.path.join(TMP, "script.py")
            with open(fn, "w") as f:
                f.write(code)
            loud = 1
            go = lambda: v.run(fn, **kw)
        else:
            loud = r.choice([1, 1, 2])
            go = lambda: v.execute(code, silent=loud == 1, **kw)
        if not block:
            w.op(c, mode, t, prog, "none", go, loud=loud)
        else:
            w.op(c, mode, t, prog, "none", lambda: go() and None, block="wait", loud=loud)

    def op_apply():
        x = pick()
        if not x:
            return
        c, mode, v, t, kw, block = x
        if r.random() < .3:
            v, mode = view(c, "lb"), "lb"
        prog = program(w, r, True)
        f, args, kwa = as_function(prog, r)
        ret = "many" if any(i["op"] in ("get", "lit") for i in prog) else "none"
        y = r.random()
        if mode != "lb":
            v.targets = t
        if y < .25:
            v.block = block
            go = lambda: v.apply(f, *args, **kwa)
        elif y < .5:
            block = False
            go = lambda: v.apply_async(f, *args, **kwa)
        elif y < .75:
            block = True
            go = lambda: v.apply_sync(f, *args, **kwa)
        else:
            go = lambda: v.remote(block=block)(f)(*args, **kwa)
        w.op(c, mode, t, prog, ret, go, any=mode == "lb", block=block)

    def op_scatter():
        x = pick()
        if not x:
            return
        c, mode, v, t, kw, block = x
        if isinstance(t, int) and mode != "direct":
            return
        val = w.val(r.choice("lllttaaArrd"), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 300 if r.random() < .2 else 12]))
        flat, dist, key = r.random() < .25, r.choice("bbr"), r.choice(NAMES)
        if r.random() < .8 or dist == "r":
            kw["dist"] = dist
        else:
            dist = "b"
        w.op(c, mode, t, None, "scatter", lambda: v.scatter(key, real(val), flatten=flat, **kw), single=False, dist=dist, key=key, seq=val, flat=flat, block="wait" if block else False)

    def op_gather():
        x = pick()
        if not x:
            return
        c, mode, v, t, kw, block = x
        key, dist = r.choice(NAMES), r.choice("bbr")
        w.op(c, mode, t, [ins("get", x=key)], "gather", lambda: v.gather(key, dist=dist, **kw), single=False, dist=dist, block=block)

    def op_both():
        """scatter, then gather the same way"""
        c = r.choice(cs)
        if not c.ids:
            return
        mode = r.choice(["direct", "direct", "bcast"])
        v = view(c, mode)
        v.block = False
        t = targets(c, mode)
        val = w.val(r.choice("lllttaaArr"), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12]))
        dist, key, flat = r.choice("bbr"), r.choice(NAMES), r.random() < .2
        w.op(c, mode, t, None, "scatter", lambda: v.scatter(key, real(val), dist=dist, targets=t, block=False, flatten=flat), single=False, dist=dist, key=key, seq=val, flat=flat)
        if r.random() < .4:
            w.run(r.choice([1, 3, 9]))
        if r.random() < .3:
            prog = [ins("cp", d="b", x=key), ins("cat", d=key, x="b", y="b")]
            w.op(c, "direct", t, prog, "none", lambda: view(c, "direct").execute(as_code(prog), targets=t, block=False), loud=1)
        w.op(c, mode, t, [ins("get", x=key)], "gather", lambda: v.gather(key, dist=dist, targets=t, block=False), single=False, dist=dist)

    def op_clear():
        c = r.choice(cs)
        if c.ids:
            t = targets(c, "direct")
            w.clear(c, t, r.random() < .5, view(c, "direct") if r.random() < .5 else None)

    def op_step():
        w.run(r.choice([1, 2, 3, 5, 8, 15, 40]))

    def op_look():
        if w.res:
            w.look(r.choice(list(w.res)[-6:]), r.choice([None, 0, .2]))

    def op_churn():
        live = [e for e in w.engines if e.state == "up"]
        if len(live) > 1 and r.random() < .6:
            w.die(r.choice(live))
        elif len(w.engines) < 7:
            w.start_engine()

    def op_busy():
        live = [e for e in w.engines if e.state == "up"]
        e = r.choice(live)
        e.busy = not e.busy
    sc = 4 if prof == "scatter" else .5
    W = {"push": 3, "setitem": .6, "pull": 3, "exec": 2.5, "apply": 3, "scatter": sc, "gather": sc, "both": sc, "clear": .4, "step": 3, "look": 2, "churn": .8 if prof == "churn" else 0, "busy": .4}
    ops = {"push": op_push, "setitem": op_setitem, "pull": op_pull, "exec": op_exec, "apply": op_apply, "scatter": op_scatter, "gather": op_gather, "both": op_both,
           "clear": op_clear, "step": op_step, "look": op_look, "churn": op_churn, "busy": op_busy}
    ks = list(W)
    for _ in range(r.randint(6, 30)):
        if w.no > 16:
            break
        ops[r.choices(ks, [W[k] for k in ks])[0]]()


def script(seed, sc):
    """requests as the specification makes them"""
    r = random.Random(seed)
    w = NWorld(r, {"depth": 1, "prof": "script"})
    try:
        for _ in range(sc["n"]):
            w.start_engine()
        w.settle()
        c = w.new_client()
        w.settle()
        by = {e: i for i, e in w.table(c).items()}
        v = c.direct_view("all")
        for op in sc["ops"]:
            if op["k"] == "op":
                prog = [dict(i, op=i["op"]) for i in op["p"]]
                reads = any(i["op"] == "get" for i in prog)
                t = [by[e] for e in op["es"]]
                if all(i["op"] == "set" for i in prog):
                    w.op(c, "direct", t, prog, "none", lambda: v.push({i["d"]: real(i["val"]) for i in prog}, targets=t, block=False))
                elif reads and r.random() < .5:
                    w.op(c, "direct", t, prog, "one", lambda: v.pull(prog[0]["x"], targets=t, block=False))
                elif reads or r.random() < .5:
                    f, args, kw = as_function(prog, r)
                    v.targets = t
                    w.op(c, "direct", t, prog, "many" if reads else "none", lambda: v.apply_async(f, *args, **kw))
                else:
                    w.op(c, "direct", t, prog, "none", lambda: v.execute(as_code(prog), targets=t, block=False), loud=1)
            elif op["k"] == "net":
                w.run(r.randint(1, 7))
            elif op["k"] == "clear":
                w.clear(c, "all", False)
        w.finish()
    except TooLong:
        w.log(k="ref", o=0, ex="toolong")
    return {"id": seed, "cfg": w.cfg, "ev": w.ev}


def main():
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(out, "w") as fo:
        if mode == "random":
            profs = sys.argv[5].split(",")
            for i in range(count):
                t, w = scenario(seed * 100003 + i, profs[i % len(profs)])
                fo.write(json.dumps(t) + "\n")
        else:
            for i, l in enumerate(open(sys.argv[5])):
                fo.write(json.dumps(script(seed * 100003 + i, json.loads(l))) + "\n")
    cleanup()


if __name__ == "__main__":
    main()
