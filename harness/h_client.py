"""Drive real clients against the whole simulated system.
usage: h_client.py OUT random SEED COUNT PROFILES | OUT script SEED COUNT FILE"""
from simsys import *
import re, sys
import simtasks
from concurrent.futures import ALL_COMPLETED, FIRST_COMPLETED, FIRST_EXCEPTION
from ipyparallel.serialize import deserialize_object
from ipyparallel.client.client import ExecuteReply

DIED, ABORT, OTHER, NOENG, GARB = -1000001, -1000002, -1000003, -1000004, -1000009
DEPERR = {"UnmetDependency", "ImpossibleDependency", "DependencyTimeout", "InvalidDependency", "TaskTimeout"}
RW = {None: "", ALL_COMPLETED: "all", FIRST_COMPLETED: "first", FIRST_EXCEPTION: "exc"}


def code_of(en, ev):
    if en == "SimError":
        m = re.fullmatch(r"<(\d+)>", str(ev))
        return -int(m.group(1)) if m else GARB
    if en == "UnmetDependency" or en in DEPERR:
        return OTHER
    if en == "EngineError":
        return DIED
    if en == "TaskAborted":
        return ABORT
    if en == "NoEnginesRegistered":
        return NOENG
    return GARB


def code(v):
    if isinstance(v, error.RemoteError):
        return code_of(v.ename, v.evalue)
    if isinstance(v, Exception):
        return code_of(type(v).__name__, v)
    if isinstance(v, ExecuteReply):
        return v.execution_count if isinstance(v.execution_count, int) else GARB
    return simtasks.tok_of(v) or GARB


class World(System):
    def __init__(self, r, cfg):
        self.cfg = cfg
        self.ev = []
        self.ntok = 0
        self.nf = 0
        self.k = 0
        self.fut = {}      # f -> dict(c, k, e)
        self.by_msg = {}   # msg_id -> f
        self.ars = {}
        self.nar = 0
        self.pending_bind = None
        self.cur_msg = None
        self.reported = set()
        self.cno = {}
        self.cbs = []
        self.strange = []
        simtasks.SYS = self
        super().__init__(r, depth=cfg["depth"], db=cfg.get("db", "DictDB"), scheme=cfg.get("scheme"), extra=cfg.get("extra"))
        self.s0 = Session(key=KEY)

    def log(self, **k):
        self.ev.append(k)

    # ------------------------------------------------------------ what engines do
    def before_exec(self, e, frames):
        self.s0.digest_history.clear()
        idents, ml = self.s0.feed_identities(frames)
        m = self.s0.deserialize(ml, content=True)
        self.cur_msg = m["header"]["msg_id"]
        self.cur_type = m["header"]["msg_type"]

    def after_exec(self, e, frames):
        self.cur_msg = None

    def ran(self, k, out, how):
        self.ntok += 1
        self.log(k="run", f=self.f_of(self.cur_msg), kk=k, e=Cur.engine.n + 1, tok=self.ntok, how=how, out=[x for x in out if x != "f"] and
                 [[x, self.ntok * 10 + j] for j, x in enumerate(out) if x != "f"], x=self.cur_type == "execute_request")
        return self.ntok

    def display(self, t):
        e = Cur.engine
        sys.stdout.flush()
        sys.stderr.flush()
        e.shell.publish("display_data", {"data": {"text/plain": f"<{t}>"}, "metadata": {}})

    def data(self, t):
        from ipyparallel.engine.datapub import publish_data
        publish_data({f"d{t}": t})

    def on_control(self, e, frames):
        self.s0.digest_history.clear()
        idents, ml = self.s0.feed_identities(frames)
        m = self.s0.deserialize(ml, content=True)
        t = m["header"]["msg_type"]
        if t == "abort_request":
            ids = m["content"].get("msg_ids")
            ids = [ids] if isinstance(ids, str) else ids
            self.log(k="ab", e=e.n + 1, fs=[self.f_of(x) for x in ids or []], all=not ids)

    # ------------------------------------------------------------ names
    def f_of(self, msg_id):
        self.bind()
        if msg_id in self.by_msg:
            return self.by_msg[msg_id]
        for e in self.engines:     # an engine's part of a coalesced request
            if msg_id.endswith("_" + e.uuid):
                return max(0, self.by_msg.get(msg_id[:-len(e.uuid) - 1], 0))
        return 0

    def bind(self):
        """the calls submitted last get their message ids"""
        p, = (self.pending_bind,)
        if p is None:
            return
        c, n0, fs, how = p
        new = c.history[n0:]
        if how == "child" and len(new) == len(fs):
            self.pending_bind = None
            self.by_msg.update(zip(new, fs))
        elif how == "child":
            if len(new) == 1:
                self.pending_bind = None
                for f in fs:
                    self.by_msg[f"{new[0]}_{self.engines[self.fut[f]['e'] - 1].uuid}"] = f
                self.by_msg[new[0]] = -fs[0]
        elif len(new) == len(fs):
            self.pending_bind = None
            for m, f in zip(new, fs):
                self.by_msg[m] = f

    def new_f(self, c, k, e, **x):
        self.nf += 1
        self.fut[self.nf] = dict(c=c, k=k, e=e, **x)
        return self.nf

    def en(self, uuid):
        for e in self.engines:
            if e.uuid == uuid:
                return e.n + 1
        return 0

    # ------------------------------------------------------------ what clients are told
    def choices(self):
        out = super().choices()
        for e in self.engines:
            if e.state == "dead" and e.id >= 0 and e not in self.reported:
                out.append(("stop", e))
        return out

    def fire(self, k, x):
        if k == "stop":
            self.reported.add(x)
            self.heart(x, "stopped_heart")
        elif k == "exec" and getattr(x, "doomed", 0) and len(x.queue) and self.r.random() < .5:
            self.die(x)
        else:
            super().fire(k, x)

    def deliver(self, ch):
        d = ch[1]
        self.s0.digest_history.clear()
        fr = self.net.chan[ch][0]
        try:
            for ci, c in enumerate(self.clients):
                if d in (getattr(c, f"_{n}_socket", None) for n in ("mux", "task", "broadcast")):
                    self.see_reply(ci + 1, c, fr)
                elif d is getattr(c, "_notification_socket", None):
                    self.see_note(ci + 1, fr)
                elif d is getattr(c, "_iopub_socket", None):
                    self.see_iopub(ci + 1, c, fr)
        except Exception as e:
            import traceback
            self.odd_tb = traceback.format_exc()
            self.log(k="odd", what=repr(e)[:80])
        super().deliver(ch)

    def see_reply(self, ci, c, frames):
        idents, ml = self.s0.feed_identities(frames)
        m = self.s0.deserialize(ml, content=True)
        md = m["metadata"]
        coal = bool(md.get("is_broadcast") and md.get("is_coalescing"))
        f = self.f_of(md["original_msg_id"] if coal else m["parent_header"]["msg_id"])
        st = m["content"]["status"]
        v = []
        if st == "ok":
            if m["header"]["msg_type"] == "execute_reply":
                v = [m["content"]["execution_count"]]
            else:
                bufs = m["buffers"]
                while bufs:
                    x, bufs = deserialize_object(bufs)
                    v.append(code(x))
        elif st == "aborted":
            v = [ABORT]
        else:
            v = [code_of(m["content"]["ename"], m["content"]["evalue"])]
        self.log(k="crecv", c=ci, f=f, st="ok" if st == "ok" else "err", v=v)

    def see_note(self, ci, frames):
        idents, ml = self.s0.feed_identities(frames)
        m = self.s0.deserialize(ml, content=True)
        t = m["header"]["msg_type"]
        if t in ("registration_notification", "unregistration_notification"):
            self.log(k="cnote", c=ci, t="reg" if t[0] == "r" else "unreg", id=m["content"]["id"], e=self.en(m["content"]["uuid"]))

    def see_iopub(self, ci, c, frames):
        idents, ml = self.s0.feed_identities(frames)
        m = self.s0.deserialize(ml, content=True)
        p = m["parent_header"]
        if not p or p.get("session") != c.session.session:
            return
        f = self.f_of(p["msg_id"])
        t, ct = m["header"]["msg_type"], m["content"]
        ch, toks = None, []
        if t == "stream":
            ch, toks = {"stdout": "o", "stderr": "e"}[ct["name"]], toks_in(ct["text"])
        elif t == "display_data":
            ch, toks = "d", toks_in(ct["data"]["text/plain"])
        elif t == "execute_result":
            ch, toks = "x", toks_x(ct["data"]["text/plain"])
        elif t == "data_message":
            ch = "p"
            x, _ = deserialize_object(m["buffers"])
            toks = sorted(x.values())
        elif t == "status" and ct["execution_state"] == "idle":
            ch = "idle"
        if ch:
            self.log(k="iop", c=ci, f=f, ch=ch, toks=toks)

    # ------------------------------------------------------------ environment
    def start_engine(self):
        e = self.add_engine()
        self.log(k="eng", e=e.n + 1)
        return e

    def die(self, e, late=None):
        late = self.r.random() < .6 if late is None else late
        self.log(k="kill", e=e.n + 1)
        e.kill(late)

    def new_client(self):
        c = self.add_client()
        ci = len(self.clients)
        self.cno[id(c)] = ci
        self.log(k="client", c=ci, tab=[[i, self.en(c._engines[i])] for i in c.ids])
        return c

    # ------------------------------------------------------------ submissions
    def table(self, c):
        return {i: self.en(c._engines[i]) for i in c.ids}

    def submit(self, c, view, mode, targets, func="apply", how="ok", out="", size=0, block=False, opts=None):
        """mode: direct, lb, bcast, coal; targets: what the user passes to the view"""
        ci = self.cno[id(c)]
        self.k += 1
        k = self.k
        opts = dict(opts or {})
        dep = bool(opts)
        tab = self.table(c)
        ids = resolve(targets, sorted_ids(c), tab)
        n0 = len(c.history)
        if mode == "lb":
            es = sorted(tab[i] for i in ids) if targets is not None else []
            fs = [self.new_f(ci, k, 0)]
            desc = [dict(f=fs[0], e=es, any=True, coal=[])]
        elif mode == "coal":
            es = [tab[i] for i in ids]
            fs = [self.new_f(ci, k, 0)]
            desc = [dict(f=fs[0], e=es, any=False, coal=es)]
        else:
            fs = [self.new_f(ci, k, tab[i]) for i in ids]
            desc = [dict(f=f, e=[self.fut[f]["e"]], any=False, coal=[]) for f in fs]
        single = mode in ("lb", "coal") or isinstance(targets, int)
        self.nar += 1
        a = self.nar
        rt = opts.get("retries", 0)
        self.log(k="sub", ar=a, c=ci, kk=k, fs=desc, single=single and mode != "coal", coal=mode == "coal", dep=dep or how == "unmet" or bool(mode == "lb" and targets is not None), retries=rt, deps=sorted({self.f_of(m) for x in ('follow', 'after') for d in opts.get(x, []) for m in d.msg_ids}),
                 func=func, how=how, mode=mode)
        self.pending_bind = (c, n0, fs, "child" if mode == "bcast" else "")
        kw = {}
        if mode == "lb":
            view.set_flags(follow=None, after=None, retries=0, timeout=0)
            view.set_flags(targets=targets, **opts)
        else:
            kw["targets"] = targets
        info = dict(fs=fs, single=single and mode != "coal", coal=mode == "coal", c=c, n=a)
        code_ = f"__import__('simtasks').job({k}, {out!r}, {how!r}, {size})"

        def go():
            if func == "execute":
                return view.execute(code_, silent=opts_silent, block=block, **kw)
            if mode == "lb":
                return (view.apply_sync if block else view.apply_async)(simtasks.job, k, out, how, size)
            return view._really_apply(simtasks.job, [k, out, how, size], {}, block=block, **kw)
        opts_silent = self.r.random() < .3
        t0 = clock.t
        try:
            res = go()
            self.bind()
            if not block or func == "execute":
                self.ars[a] = dict(info, ar=res)
                if block:
                    self.log(k="get", ar=a, to=-1, el=0, rx=0, rw="", st="done", v=[], eng=[])
            else:
                self.log(k="get", ar=a, to=-1, el=0, rx=0, rw="", **self.got(info, lambda: res))
        except (Hang, TooLong) as e:
            self.bind()
            self.log(k="hang", fs=fs, what="submit")
        except Exception as e:
            self.bind()
            if block and not isinstance(e, (error.NoEnginesRegistered, IndexError, TypeError)):
                self.log(k="get", ar=a, to=-1, el=0, rx=0, rw="", **self.exc(info, e))
            else:
                self.log(k="subx", ar=a, ex=type(e).__name__)
        self.pending_bind = None
        return a

    # ------------------------------------------------------------ observations
    def enc(self, info, v):
        if info["coal"]:
            return [code(x) for x in v] if isinstance(v, list) else [code(v)]
        if info["single"]:
            return [code(v)]
        return [code(x) for x in v] if isinstance(v, list) else [code(v) if isinstance(v, Exception) else GARB]

    def exc(self, info, e):
        if isinstance(e, TimeoutError):
            return dict(st="timeout", v=[], eng=[])
        if isinstance(e, error.CompositeError):
            return dict(st="comp", v=[code_of(x[0], x[1]) for x in e.elist], eng=[self.eng_of(x[3]) for x in e.elist])
        if isinstance(e, (error.RemoteError, error.TaskAborted)):
            return dict(st="exc", v=[code(e)], eng=[self.eng_of(getattr(e, "engine_info", None))])
        return dict(st="bug:" + type(e).__name__ + ":" + simtasks.tame(str(e)[:60]), v=[], eng=[])

    def eng_of(self, info):
        if not info or "engine_uuid" not in info:
            return 0
        return self.en(info["engine_uuid"])

    def got(self, info, fn):
        try:
            v = fn()
        except (Hang, TooLong):
            return dict(st="hang", v=[], eng=[])
        except Exception as e:
            return self.exc(info, e)
        return dict(st="val", v=self.enc(info, v), eng=[])

    def timed(self, fn):
        t0 = clock.t
        out = fn()
        return out, round((clock.t - t0) * 1000)

    def o_ready(self, a):
        i = self.ars[a]
        self.log(k="ready", ar=a, r=bool(i["ar"].ready()))

    def o_done(self, a):
        i = self.ars[a]
        self.log(k="ready", ar=a, r=bool(i["ar"].done()))

    def o_successful(self, a):
        i = self.ars[a]
        try:
            r = "yes" if i["ar"].successful() else "no"
        except RuntimeError:
            r = "notready"
        self.log(k="succ", ar=a, r=r)

    def o_get(self, a, to=None, rx=None, rw=None):
        i = self.ars[a]
        d, el = self.timed(lambda: self.got(i, lambda: i["ar"].get(to, return_exceptions=rx, return_when=rw)))
        self.log(k="get", ar=a, to=-1 if to is None or to < 0 else round(to * 1000), el=el, rx=int(bool(rx)), rw=RW[rw], **d)

    def o_result(self, a, to=None):
        i = self.ars[a]
        d, el = self.timed(lambda: self.got(i, lambda: i["ar"].result(to)))
        self.log(k="get", ar=a, to=-1 if to is None else round(to * 1000), el=el, rx=0, rw="", **d)

    def o_exception(self, a, to=0):
        i = self.ars[a]

        def f():
            e = i["ar"].exception(to)
            if e is not None:
                raise e
            return i["ar"].get()
        d, el = self.timed(lambda: self.got(i, f))
        self.log(k="get", ar=a, to=-1 if to is None else round(to * 1000), el=el, rx=0, rw="", **d)

    def o_wait(self, a, to=-1, rw=None):
        i = self.ars[a]

        def f():
            try:
                r = i["ar"].wait(to, return_when=rw)
            except (Hang, TooLong):
                return dict(st="hang")
            except Exception as e:
                return dict(st="bug:" + type(e).__name__)
            if rw is None:
                return dict(st="yes" if r else "no")
            d, p = r
            fl = lambda s: sorted(self.f_of(m) for x in s for m in x.msg_ids)
            return dict(st="sets", d=fl(d), p=fl(p))
        d, el = self.timed(f)
        d = dict(dict(d=[], p=[]), **d)
        self.log(k="wait", ar=a, to=-1 if to is None or to < 0 else round(to * 1000), el=el, rw=RW[rw], **d)

    def o_iter(self, a):
        i = self.ars[a]
        ys = []

        def f():
            try:
                for x in i["ar"]:
                    ys.append(code(x))
            except (Hang, TooLong):
                return dict(st="hang", v=[], eng=[])
            except TypeError as e:
                if i["single"] or i["coal"]:
                    return dict(st="single", v=[], eng=[])
                return self.exc(i, e)
            except Exception as e:
                return self.exc(i, e)
            return dict(st="stop", v=[], eng=[])
        self.log(k="iter0", ar=a)
        d, el = self.timed(f)
        self.log(k="iter", ar=a, ys=ys, **d)

    def o_len(self, a):
        i = self.ars[a]
        self.log(k="len", ar=a, n=len(i["ar"]), p=i["ar"].progress)

    def o_dict(self, a, to=-1):
        i = self.ars[a]

        def f():
            try:
                d = i["ar"].get_dict(to)
            except (Hang, TooLong):
                return dict(st="hang", v=[], eng=[], ids=[])
            except ValueError:
                return dict(st="dup", v=[], eng=[], ids=[])
            except Exception as e:
                return dict(self.exc(i, e), ids=[])
            ks = list(d)
            return dict(st="val", v=[code(d[x]) for x in ks], ids=[x if isinstance(x, int) else -1 for x in ks], eng=[])
        d, el = self.timed(f)
        self.log(k="dict", ar=a, rx=0, rw="", to=-1 if to is None or to < 0 else round(to * 1000), el=el, **d)

    def o_item(self, a, key):
        i = self.ars[a]
        if i["coal"] or i["single"]:
            return
        try:
            v = i["ar"][key]
            d = dict(st="val", v=[code(x) for x in v] if isinstance(key, slice) else [code(v)], eng=[])
        except IndexError:
            d = dict(st="index", v=[], eng=[])
        except Exception as e:
            d = self.exc(i, e)
        n = len(i["fs"])
        idx = [x + 1 for x in (range(n)[key] if isinstance(key, slice) else ([range(n)[key]] if -n <= key < n else []))]
        self.log(k="item", ar=a, idx=idx, sl=isinstance(key, slice), **d)

    def o_split(self, a):
        i = self.ars[a]
        try:
            parts = i["ar"].split()
            fs = [[self.f_of(m) for m in p.msg_ids] for p in parts]
        except Exception as e:
            parts, fs = [], [[-1]]
        self.log(k="split", ar=a, fs=fs)
        if len(parts) > 1:
            for p, f in zip(parts, i["fs"]):
                self.nar += 1
                self.log(k="ar", ar=self.nar, fs=[f], single=True, coal=False)
                self.ars[self.nar] = dict(fs=[f], single=True, coal=False, c=i["c"], n=self.nar, ar=p)
            if self.r.random() < .5:
                self.nar += 1
                j = ipp.AsyncResult.join(*parts)
                self.log(k="ar", ar=self.nar, fs=i["fs"], single=False, coal=False)
                self.ars[self.nar] = dict(i, ar=j, n=self.nar)

    def o_cb(self, a):
        """a callback on completion is called once, when it is complete"""
        i = self.ars[a]
        n = len(self.cbs)
        self.cbs.append(0)
        self.log(k="cb0", ar=a, i=n + 1)

        def cb(f):
            self.cbs[n] += 1
            self.log(k="cb", ar=a, i=n + 1, n=self.cbs[n], r=bool(f.done()))
        i["ar"].add_done_callback(cb)

    # client
    def o_out(self, c):
        ci = self.cno[id(c)]
        fs = [self.f_of(m) for m in c.outstanding]
        self.log(k="outs", c=ci, fs=sorted(f for f in fs if f > 0), unk=sum(1 for f in fs if f == 0), par=sorted(f for f in fs if f < 0))

    def o_hist(self, c):
        self.log(k="hist", c=self.cno[id(c)], fs=[self.f_of(m) for m in c.history])

    def o_cwait(self, c, jobs=None, to=-1):
        def f():
            try:
                return dict(st="yes" if c.wait([self.ars[a]["ar"] for a in jobs] if jobs is not None else None, to) else "no")
            except (Hang, TooLong):
                return dict(st="hang")
            except Exception as e:
                return dict(st="bug:" + type(e).__name__)
        d, el = self.timed(f)
        self.log(k="cwait", c=self.cno[id(c)], all=jobs is None, ars=list(jobs or []), to=-1 if to < 0 else round(to * 1000), el=el, **d)

    def o_vwait(self, c, view, ars, to=-1):
        """all that was submitted through a view"""
        def f():
            try:
                return dict(st="yes" if view.wait(timeout=to) else "no")
            except (Hang, TooLong):
                return dict(st="hang")
            except Exception as e:
                return dict(st="bug:" + type(e).__name__)
        d, el = self.timed(f)
        self.log(k="cwait", c=self.cno[id(c)], all=False, ars=list(ars), to=-1 if to < 0 else round(to * 1000), el=el, **d)
        fs = [self.f_of(m) for m in view.outstanding]
        self.log(k="vouts", c=self.cno[id(c)], ars=list(ars), fs=sorted(f for f in fs if f > 0), unk=sum(1 for f in fs if f == 0), par=sorted(f for f in fs if f < 0))

    def o_ids(self, c):
        self.log(k="ids", c=self.cno[id(c)], ids=c.ids, n=len(c), es=[self.en(c._engines.get(i)) for i in c.ids])

    def o_targets(self, c, spec):
        try:
            idents, ids = c._build_targets(spec)
            d = dict(st="ok", ids=list(ids), es=[self.en(x.decode()) for x in idents])
        except Exception as e:
            d = dict(st=type(e).__name__, ids=[], es=[])
        self.log(k="tgt", c=self.cno[id(c)], sp=spec_of(spec), **d)

    def o_outp(self, a, to=None):
        i = self.ars[a]
        ar = i["ar"]
        w = "no"
        if to is not None:
            try:
                w = "yes" if ar.wait_for_output(to) else "no"
            except (Hang, TooLong):
                w = "hang"
        L = lambda x: [x] if i["single"] or i["coal"] else x
        try:
            d = dict(so=[toks_in(x) for x in L(ar.stdout)], se=[toks_in(x) for x in L(ar.stderr)],
                     d=[[t for o in x for t in toks_in(o["data"]["text/plain"])] for x in L(ar.outputs)],
                     x=[toks_x(x["data"]["text/plain"]) if x else [] for x in L(ar.execute_result)],
                     p=[sorted(x.values()) for x in L(ar.data)])
        except Exception as e:
            d = dict(so=[], se=[], d=[], x=[], p=[])
            w = "bug:" + type(e).__name__
        self.log(k="outp", ar=a, w=w, to=0 if to is None else round(to * 1000), **d)

    def o_md(self, a):
        i = self.ars[a]
        ar = i["ar"]
        ms = []
        try:
            mds = ar.metadata
        except Exception:
            return
        L = [mds] if i["single"] or i["coal"] else mds
        for m in L:
            eu, ei = m["engine_uuid"], m["engine_id"]
            ts = [m[x] for x in ("submitted", "started", "completed", "received")]
            ts = [t for t in ts if t is not None]
            ms.append(dict(f=self.f_of(m["msg_id"]) if m["msg_id"] else 0, e=[self.en(x) for x in (eu if isinstance(eu, list) else [eu])] if eu else [],
                           ids=(ei if isinstance(ei, list) else [ei]) if ei is not None else [], st=m["status"] or "",
                           order=all(x <= y for x, y in zip(ts, ts[1:])) if m["status"] == "ok" else True, n=len(ts)))
        self.log(k="md", ar=a, ms=ms)

    def o_wfe(self, c, n, to):
        """wait_for_engines without blocking: its future tells when"""
        self.nwfe = getattr(self, "nwfe", 0) + 1
        i, t0 = self.nwfe, clock.t
        self.log(k="wfe0", c=self.cno[id(c)], i=i, n=n, to=-1 if to < 0 else round(to * 1000))
        f = c.wait_for_engines(n, timeout=to, block=False, interactive=False)

        def told(f):
            e = f.exception()
            st = "ok" if e is None else "timeout" if isinstance(e, TimeoutError) else "died" if isinstance(e, error.EngineError) else "bug"
            self.log(k="wfe", i=i, st=st, el=round((clock.t - t0) * 1000))
        f.add_done_callback(told)

    def o_abort(self, c, ars, targets=None):
        """ars: what to abort (None: all outstanding)"""
        def f():
            try:
                c.abort([self.ars[a]["ar"] for a in ars] if ars is not None else None, targets=targets, block=True)
                return "ok"
            except (Hang, TooLong):
                return "hang"
            except error.NoEnginesRegistered:
                return "noeng"
            except Exception as e:
                if isinstance(e, error.RemoteError) and e.ename == "EngineError":
                    return "died"
                return "bug:" + type(e).__name__ + simtasks.tame(str(e)[:50])
        # what is asked for is known before any of it arrives
        tab = self.table(c)
        ids = resolve(targets, sorted_ids(c), tab)
        self.log(k="abort0", c=self.cno[id(c)], all=ars is None, ars=list(ars or []), es=[tab[x] for x in ids])
        st = f()
        self.log(k="abort", c=self.cno[id(c)], all=ars is None, ars=list(ars or []), es=[tab[x] for x in ids], st=st)

    # ------------------------------------------------------------ the end
    def finish(self):
        for e in self.engines:
            if getattr(e, "doomed", 0):
                e.doomed = 0
        for _ in range(60):
            self.settle()
            d = self.timers()
            if d is None or d > clock.t + 60:
                break
            clock.t = max(clock.t, d)
        self.settle()
        for c in self.clients:
            self.o_out(c)
            self.o_hist(c)
            self.o_ids(c)
        for a in list(self.ars):
            self.o_ready(a)
            self.o_get(a, 0, True)
            self.o_outp(a)
            self.o_md(a)
        self.log(k="quiet", errs=len(self.real_errors()))

    def real_errors(self):
        return [e for e in SIM.errors]


def sorted_ids(c):
    return c.ids


def resolve(targets, ids, tab):
    """engine ids that a target specification means, or [] if it means nothing"""
    if targets is None or targets == "all":
        return list(ids)
    if isinstance(targets, int):
        if targets < 0:
            return [ids[targets]] if -len(ids) <= targets else []
        return [targets] if targets in tab else []
    if isinstance(targets, slice):
        return ids[targets]
    return [t for t in targets if t in tab]


def spec_of(s):
    if s is None or (isinstance(s, str) and s.lower() == "all"):
        return {"t": "all", "v": []}
    if isinstance(s, int):
        return {"t": "int", "v": [s]}
    if isinstance(s, slice):
        n = lambda x: 99 if x is None else x
        return {"t": "slice", "v": [n(s.start), n(s.stop), n(s.step)]}
    if isinstance(s, (list, tuple, range)):
        return {"t": "list", "v": list(s)}
    return {"t": "bad", "v": []}


def toks_in(s):
    out = []
    pos = 0
    for m in re.finditer(r"<(\d+)>", s or ""):
        if m.start() != pos:
            out.append(-1)
        out.append(int(m.group(1)))
        pos = m.end()
    if pos != len(s or ""):
        out.append(-1)
    return out


def toks_x(s):
    m = re.fullmatch(r"\('v', (\d+)\)", s or "")
    return [int(m.group(1))] if m else [-1]


# ---------------------------------------------------------------- random scenarios

PROFILES = ["direct", "lb", "bcast", "churn", "out", "abort", "table"]


def scenario(seed, prof):
    r = random.Random(seed)
    cfg = {"depth": r.choice([0, 1, 1, 2]), "prof": prof}
    w = World(r, cfg)
    try:
        play(w, r, prof)
        w.finish()
    except TooLong:
        w.log(k="hang", fs=[], what="toolong")
    return {"id": seed, "cfg": cfg, "ev": w.ev}, w


def play(w, r, prof):
    ne = r.choice([1, 2, 2, 3, 3, 4])
    for _ in range(ne):
        w.start_engine()
    if r.random() < .8:
        w.settle()
    else:
        w.run(r.randint(5, 60))
    cs = [w.new_client() for _ in range(r.choice([1, 1, 1, 2]))]
    if r.random() < .8:
        w.settle()
    views = {}
    for c in cs:
        pass

    def view(c, mode):
        key = (id(c), mode)
        if key not in views:
            if not c.ids:
                return None
            v = {"direct": lambda: c.direct_view("all"), "lb": c.load_balanced_view, "bcast": lambda: c.broadcast_view(),
                 "coal": lambda: c.broadcast_view(is_coalescing=True)}[mode]()
            views[key] = (v, [])
        return views[key]
    modes = {"direct": ["direct"], "lb": ["lb"] * 3 + ["direct"], "bcast": ["bcast", "coal"], "churn": ["direct", "lb", "bcast", "coal"],
             "out": ["direct"] * 3 + ["lb", "bcast", "coal"], "abort": ["direct"] * 3 + ["lb", "bcast", "coal"], "table": ["direct"]}[prof]
    churn = {"churn": .5, "table": .5, "direct": .15, "lb": .15, "bcast": .15, "out": .1, "abort": .1}[prof]

    def targets(c, mode):
        ids = c.ids
        x = r.random()
        if mode == "lb":
            if x < .75 or not ids:
                return None
            return sorted(r.sample(ids, r.randint(1, len(ids))))
        if x < .35 or not ids:
            return "all"
        if x < .65 and mode == "direct":
            return r.choice(ids + [-1])
        if x < .75 and mode == "direct":
            return slice(r.choice([None, 0, 1, -1]), r.choice([None, 1, 2, 3]), r.choice([None, 1, 2, -1])) if r.random() < .3 else slice(None)
        return r.sample(ids, r.randint(1, len(ids)))

    def op_sub():
        c = r.choice(cs)
        mode = r.choice(modes)
        vv = view(c, mode)
        if vv is None:
            return
        t = targets(c, mode)
        if isinstance(t, slice) and not resolve(t, c.ids, w.table(c)):
            return
        func = "execute" if mode in ("direct", "bcast") and r.random() < (.4 if prof == "out" else .2) else "apply"
        how = r.choice(["ok"] * 5 + ["fail"] * 2)
        out = ""
        if prof == "out" or r.random() < .2:
            out = "".join(r.choice("ooeedpf") for _ in range(r.randint(1, 5)))
        opts = {}
        if mode == "lb" and r.random() < .4:
            opts["retries"] = r.choice([1, 2])
            if r.random() < .3:
                how = "unmet"
            mine = [i["ar"] for i in w.ars.values() if not i["coal"] and i["single"] and i["c"] is c and hasattr(i["ar"], "msg_ids")]
            if mine and r.random() < .5:
                opts[r.choice(["follow", "after"])] = r.sample(mine, min(len(mine), r.randint(1, 2)))
                if r.random() < .3:
                    opts["timeout"] = r.choice([.5, 3])
        a = w.submit(c, vv[0], mode, t, func, how, out, r.choice([0, 0, 0, 1, 2, 3]) if func == "apply" else 0, block=r.random() < .12, opts=opts)
        vv[1].append(a)

    def op_step():
        w.run(r.choice([1, 2, 3, 5, 8, 15, 40]))

    def op_ar():
        if not w.ars:
            return
        a = r.choice(list(w.ars)[-8:])
        i = w.ars[a]
        to = r.choice([None, None, 0, 0, .05, .3, 2])
        x = r.random()
        if x < .28:
            w.o_get(a, to, r.choice([None, True, False]), r.choice([None, None, FIRST_EXCEPTION, ALL_COMPLETED]))
        elif x < .42:
            w.o_wait(a, -1 if to is None else to, r.choice([None, None, FIRST_COMPLETED, FIRST_EXCEPTION, ALL_COMPLETED]))
        elif x < .50:
            w.o_ready(a)
        elif x < .56:
            w.o_successful(a)
        elif x < .64:
            w.o_iter(a)
        elif x < .69:
            w.o_len(a)
        elif x < .74:
            w.o_dict(a, r.choice([-1, 0, .3]))
        elif x < .80:
            w.o_item(a, r.choice([0, -1, 1, slice(None), slice(1, None), slice(None, None, -1)]))
        elif x < .86:
            w.o_split(a)
        elif x < .90:
            w.o_cb(a)
        elif x < .94:
            w.o_result(a, to)
        elif x < .97:
            w.o_exception(a, to)
        else:
            w.o_done(a)

    def op_out():
        if w.ars:
            a = r.choice(list(w.ars)[-8:])
            if r.random() < .7:
                w.o_outp(a, r.choice([None, 0, .5, -1 if w.ars[a]["ar"].ready() else 0]))
            else:
                w.o_md(a)

    def op_client():
        c = r.choice(cs)
        x = r.random()
        if x < .35:
            w.o_out(c)
        elif x < .45:
            w.o_hist(c)
        elif x < .75:
            mine = [a for a, i in w.ars.items() if i["c"] is c]
            w.o_cwait(c, r.sample(mine, min(len(mine), r.randint(0, 3))) if r.random() < .6 and mine else None, r.choice([-1, 0, .3]))
        else:
            ks = [k for k in views if k[0] == id(c)]
            if ks:
                v, ars = views[r.choice(ks)]
                w.o_vwait(c, v, ars, r.choice([-1, 0, .3]))

    def op_table():
        c = r.choice(cs)
        if r.random() < .5:
            w.o_ids(c)
        else:
            ids = c.ids
            n = lambda: r.choice([None, 0, 1, 2, -1, -2, 5])
            w.o_targets(c, r.choice([None, "all", "ALL", 0, 1, -1, 7, -9, slice(n(), n(), r.choice([None, 1, 2, -1, -2])), [], ids, ids[::-1], ids[:1] * 2, ids + [42], "x", 1.5, range(0, 2), tuple(ids[:2])]))

    def op_wfe():
        w.o_wfe(r.choice(cs), r.choice([0, 1, 2, 3, 4, 5, 6]), r.choice([-1, -1, 0, .3, 2]))

    def op_churn():
        x = r.random()
        live = [e for e in w.engines if e.state == "up"]
        if x < .55 and live:
            w.die(r.choice(live))
        elif len(w.engines) < 7:
            w.start_engine()

    def op_abort():
        c = r.choice(cs)
        mine = [a for a, i in w.ars.items() if i["c"] is c]
        if c.outstanding:
            w.o_abort(c, r.sample(mine, min(len(mine), r.randint(1, 3))) if mine and r.random() < .8 else None,
                      r.choice([None, None, targets(c, "direct")]))

    def op_busy():
        live = [e for e in w.engines if e.state == "up"]
        if live:
            e = r.choice(live)
            e.busy = not e.busy or r.random() < .5
    W = {"busy": 2 if prof == "abort" else .3, "sub": 4, "step": 4, "ar": 5, "out": 3 if prof == "out" else .3, "client": 2, "table": 4 if prof == "table" else .3, "wfe": 2 if prof == "table" else .15, "churn": churn * 2, "abort": 2 if prof == "abort" else .1}
    ops = {"busy": op_busy, "sub": op_sub, "step": op_step, "ar": op_ar, "out": op_out, "client": op_client, "table": op_table, "wfe": op_wfe, "churn": op_churn, "abort": op_abort}
    ks = list(W)
    for _ in range(r.randint(8, 40)):
        if w.nf > 24:
            break
        ops[r.choices(ks, [W[k] for k in ks])[0]]()


# ---------------------------------------------------------------- scripts generated from the specification

def script(seed, sc):
    r = random.Random(seed)
    w = World(r, {"depth": r.choice([0, 1]), "prof": "script"})
    try:
        es = {}
        for n in range(1, sc["n"] + 1):
            es[n] = w.start_engine()
        w.settle()
        c = w.new_client()
        w.settle()
        views = {"direct": c.direct_view("all"), "lb": c.load_balanced_view(), "bcast": c.broadcast_view()}
        for op in sc["ops"]:
            k = op["k"]
            if k == "sub":
                ids = [i for i in c.ids if w.en(c._engines[i]) in op["es"]]
                if op["mode"] != "lb" and not ids:
                    continue
                w.submit(c, views[op["mode"]], op["mode"], None if op["mode"] == "lb" else ids, "apply", op["how"])
            elif k == "kill":
                w.die(es[op["e"]], op["late"])
            elif k == "net":
                w.run(r.randint(1, 7))
            elif k == "look":
                w.o_out(c)
                for a in list(w.ars)[-3:]:
                    w.o_ready(a)
                    w.o_get(a, 0, r.choice([True, False]), None)
                    w.o_len(a)
        w.finish()
    except TooLong:
        w.log(k="hang", fs=[], what="toolong")
    return {"id": seed, "cfg": w.cfg, "ev": w.ev}


def main():
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(out, "w") as fo:
        if mode == "random":
            profs = sys.argv[5].split(",") if len(sys.argv) > 5 else PROFILES
            for i in range(count):
                t, w = scenario(seed * 100003 + i, profs[i % len(profs)])
                fo.write(json.dumps(t) + "\n")
        else:
            for i, l in enumerate(open(sys.argv[5])):
                fo.write(json.dumps(script(seed * 100003 + i, json.loads(l))) + "\n")
    cleanup()


if __name__ == "__main__":
    main()
