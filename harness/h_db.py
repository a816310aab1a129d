"""Drive the real task databases.  usage: h_db.py OUT random SEED COUNT PROFILES | OUT script SEED BACKENDS SCRIPTS"""
import copy, json, os, random, shutil, signal, sys, tempfile
os.environ["TZ"] = "America/New_York"
import time
time.tzset()
from datetime import datetime, timedelta, timezone
from fakes import *
clock = Clock().install()
from tornado import ioloop


class FakePeriodic:
    made = []

    def __init__(self, cb, period, *a, **k):
        self.cb, self.period, self.on = cb, (period.total_seconds() * 1000 if hasattr(period, "total_seconds") else period), False
        FakePeriodic.made.append(self)

    def start(self):
        self.on, self.next = True, clock.t + self.period / 1000

    def stop(self):
        self.on = False

    def is_running(self):
        return self.on


ioloop.PeriodicCallback = FakePeriodic
from traitlets.config import Config
from ipyparallel.util import extract_dates
from ipyparallel.controller.dictdb import DictDB, NoDB
from ipyparallel.controller.sqlitedb import SQLiteDB

TIMEF = ["submitted", "started", "completed", "received"]
STRF = ["msg_id", "client_uuid", "engine_uuid", "resubmitted", "queue", "stdout", "stderr", "label", "execute_input"]
DICTF = ["header", "metadata", "content", "result_header", "result_metadata", "result_content", "execute_result", "error"]
BUFF = ["buffers", "result_buffers"]
FIELDS = STRF + TIMEF + DICTF + BUFF
IDS = [f"{h}-{n}" for n, h in enumerate(["00ab", "00aB", "a1", "ab1", "b[0]", "zz", "é1", "0", "00ab0", "aa?", "x*y", "q"])]
WORDS = ["", "ab", "aB", "abc", "a.b", "a*b", "a?b", "[ab]", "mux", "task", "Mux", "zürich", "line1\nline2\n", "10", "9", "%", "a_b", "'; drop", "2020-01-01T00:00:00"]
POOL = sorted(set(IDS + WORDS))
RANK = {s: i + 1 for i, s in enumerate(POOL)}
BASE = datetime(2026, 1, 10, 12, 0, 0, tzinfo=timezone.utc)
ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8)), None]


def mkdict(i):
    return [{"status": "ok"}, {"a": [1, 2, {"b": None}], "é": "ü"}, {"when": "2020-01-01T00:00:00", "x": ["2021-02-03T04:05:06.5Z"]},
            {"data": {"text/plain": "3"}, "n": 1.5, "t": True}, {}, {"code": "x" * 300, "$in": ["a"]}][i - 1]


BUFS = [[b"a"], [b"abc", b""], [b"0123456789"], [b"x" * 5, b"y" * 15], [b"\x00\xff" * 20], [b"z" * 100]]
BSIZE = [sum(map(len, b)) for b in BUFS]


def canon(f, v):
    if f in ("header", "result_header", "metadata", "result_metadata"):
        v = extract_dates(v)
    def c(o):
        if isinstance(o, datetime):
            return "@" + (o.astimezone(timezone.utc).isoformat() if o.tzinfo else "naive" + str(o))
        if isinstance(o, dict):
            return {k: c(x) for k, x in o.items()}
        if isinstance(o, (list, tuple)):
            return [c(x) for x in o]
        return o
    return json.dumps(c(v), sort_keys=True, default=repr)


DICTTOK = {f: {canon(f, mkdict(i)): i for i in range(1, 7)} for f in DICTF}
BUFTOK = {repr(b): i + 1 for i, b in enumerate(BUFS)}


def enc(f, v):
    try:
        if v is None:
            return -1
        if f in STRF:
            return RANK.get(v, 9998) if isinstance(v, str) else 9997
        if f in TIMEF:
            if not isinstance(v, datetime) or v.tzinfo is None:
                return 9996
            x = (v - BASE).total_seconds() * 2
            return int(x) if x == int(x) else 9995
        if f in DICTF:
            return DICTTOK[f].get(canon(f, v), 9994)
        if len(v) == 0:
            return -1
        return BUFTOK.get(repr([bytes(b) for b in v]), 9993)
    except Exception:
        return 9992


class Stuck(Exception):
    pass


STUCK = 0


def onalarm(*a):
    global STUCK
    STUCK += 1
    raise Stuck()


signal.signal(signal.SIGALRM, onalarm)


class Sim:
    def __init__(self, r, kind, recs=-1, byts=-1, pct=10):
        self.r, self.kind = r, kind
        self.cfg = {"kind": kind, "recs": recs, "bytes": byts, "pct": pct, "strs": [[ord(c) for c in s] for s in POOL], "bs": BSIZE}
        self.ev = []
        self.dir = tempfile.mkdtemp(prefix="vf_db_")
        FakePeriodic.made = []
        self.n = 0
        self.open()

    def open(self):
        if self.kind == "dict":
            c = Config()
            if self.cfg["recs"] >= 0:
                c.DictDB.record_limit = self.cfg["recs"]
            if self.cfg["bytes"] >= 0:
                c.DictDB.size_limit = self.cfg["bytes"]
            c.DictDB.cull_fraction = self.cfg["pct"] / 100
            self.db = DictDB(config=c)
        elif self.kind == "sqlite":
            self.db = SQLiteDB(location=self.dir, session="s1", config=Config())
        else:
            self.db = NoDB()

    def done(self):
        try:
            self.db.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def adv(self, d):
        end = clock.t + d
        while True:
            due = [p for p in FakePeriodic.made if p.on and p.next <= end]
            if not due:
                break
            p = min(due, key=lambda p: p.next)
            clock.t = max(clock.t, p.next)
            p.next += p.period / 1000
            try:
                p.cb()
            except Exception:
                pass
        clock.t = end

    # ---- values
    def dec(self, f, v, naive=True):
        if v == -1:
            return None
        if f in STRF:
            return POOL[v - 1]
        if f in TIMEF:
            z = self.r.choice(ZONES if naive else ZONES[:3])
            d = BASE + timedelta(seconds=v / 2)
            return d.astimezone(z) if z else d.astimezone().replace(tzinfo=None)
        if f in DICTF:
            return copy.deepcopy(mkdict(v))
        return [self.r.choice([bytes, memoryview])(b) for b in BUFS[v - 1]]

    def call(self, fn):
        signal.setitimer(signal.ITIMER_REAL, 5 if STUCK < 2 else 0.3)
        try:
            return fn(), False
        except Exception:
            return None, True
        finally:
            signal.alarm(0)

    def ids(self):
        if self.kind == "none":
            return []
        v, err = self.call(lambda: self.db.find_records({}, ["msg_id"]))
        if err:
            return [9999]
        return [RANK.get(x.get("msg_id"), 9998) for x in v]

    def log(self, **k):
        k["t"] = int(clock.t - clock.t0)
        self.ev.append(k)

    # ---- operations
    def add(self, rec):
        d = {f: self.dec(f, v) for f, v in rec.items()}
        _, err = self.call(lambda: self.db.add_record(d["msg_id"], d))
        self.log(k="add", id=rec["msg_id"], rec=rec, err=err, ids=self.ids())

    def upd(self, i, u):
        d = {f: self.dec(f, v) for f, v in u.items()}
        _, err = self.call(lambda: self.db.update_record(POOL[i - 1], d))
        self.log(k="upd", id=i, upd=u, err=err, ids=self.ids())

    def mutate(self, rec):
        """what a caller does with a returned record must not matter"""
        def deep(v):
            if isinstance(v, dict):
                for x in v.values():
                    deep(x)
                v["mutated"] = 1
            if isinstance(v, list) and v:
                for x in v:
                    deep(x)
                v.pop()
        for v in rec.values():
            deep(v)
        rec["client_uuid"] = "changed"

    def encrec(self, rec):
        return {f: enc(f, rec[f]) if f in rec else 9991 for f in FIELDS}

    def get(self, i):
        v, err = self.call(lambda: self.db.get_record(POOL[i - 1]))
        self.log(k="get", id=i, err=err, rec=self.encrec(v) if v is not None else {})
        if v is not None:
            self.mutate(v)

    def drop(self, i):
        _, err = self.call(lambda: self.db.drop_record(POOL[i - 1]))
        self.log(k="drop", id=i, err=err, ids=self.ids())

    def check(self, conds):
        """conds: list of [f, op, v, vs, pat(text)] -> (query dict, spec form)"""
        q, spec = {}, []
        for c in conds:
            f, op = c["f"], c["op"]
            e = {"f": f, "op": op, "v": c.get("v", -1), "vs": c.get("vs", []), "pat": []}
            if op == "eq" and c.get("plain"):
                q[f] = self.dec(f, c["v"])
            else:
                if op == "glob":
                    arg, e["pat"] = c["txt"], parse(c["txt"])
                elif op in ("in", "nin"):
                    arg = self.r.choice([list, tuple])(self.dec(f, v, naive=False) for v in c["vs"])
                else:
                    arg = self.dec(f, c["v"])
                q.setdefault(f, {})["$" + op] = arg
            spec.append(e)
        return q, spec

    def find(self, conds, keys=()):
        q, spec = self.check(conds)
        keys = list(keys)
        kk = list(keys)
        v, err = self.call(lambda: self.db.find_records(q, kk or None))
        rs = []
        if not err:
            for rec in v:
                rs.append({f: enc(f, x) for f, x in rec.items()})
                self.mutate(rec)
        self.log(k="find", check=spec, keys=keys, err=err, recs=rs)

    def dropm(self, conds):
        q, spec = self.check(conds)
        _, err = self.call(lambda: self.db.drop_matching_records(q))
        self.log(k="dropm", check=spec, err=err, ids=self.ids())

    def hist(self):
        v, err = self.call(lambda: self.db.get_history())
        self.log(k="hist", err=err, hs=[RANK.get(x, 9998) for x in v] if not err else [])

    def dump(self):
        v, err = self.call(lambda: self.db.find_records({}))
        return ([self.encrec(x) for x in v] if not err else []), err

    def reopen(self):
        if self.kind != "sqlite":
            return
        _, e1 = self.call(self.db.close)
        _, e2 = self.call(self.open)
        d, e3 = self.dump()
        self.log(k="reopen", err=e1 or e2 or e3, dump=d)

    def crash(self):
        if self.kind != "sqlite":
            return
        new = tempfile.mkdtemp(prefix="vf_db_")
        for f in os.listdir(self.dir):
            shutil.copy(os.path.join(self.dir, f), new)
        self.call(self.db.close)
        for p in FakePeriodic.made:
            p.on = False
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = new
        _, e2 = self.call(self.open)
        d, e3 = self.dump()
        self.log(k="crash", err=e2 or e3, dump=d, order=[x["msg_id"] for x in d])


def parse(txt):
    out, i = [], 0
    while i < len(txt):
        c = txt[i]
        if c == "*":
            out.append({"t": "any", "s": []})
        elif c == "?":
            out.append({"t": "one", "s": []})
        elif c == "[" and "]" in txt[i + 1:]:
            j = txt.index("]", i + 2)
            body = txt[i + 1:j]
            neg = body.startswith("!")
            out.append({"t": "notin" if neg else "in", "s": [ord(x) for x in body[neg:]]})
            i = j
        else:
            out.append({"t": "in", "s": [ord(c)]})
        i += 1
    return out


PATS = ["*", "a*", "*b*", "?b*", "[ab]*", "[!a]*", "*-[!0]", "*[012]", "", "*\n*", "00*", "?", "*é*", "m?x", "a[*]b", "a[?]b", "*.*", "[[]*"]


class Gen:
    def __init__(self, s, r, prof):
        self.s, self.r, self.prof = s, r, prof
        self.free = [RANK[x] for x in IDS]
        r.shuffle(self.free)
        self.live = []
        self.tick = 0
        self.cull = s.cfg["recs"] >= 0 or s.cfg["bytes"] >= 0

    def val(self, f):
        r = self.r
        if f in TIMEF:
            return r.choice([-1, r.randint(1, 12)])
        if f in STRF:
            return r.choice([-1, RANK[r.choice(WORDS)], RANK[r.choice(WORDS)]])
        if f in DICTF:
            return r.choice([-1, r.randint(1, 6)])
        return r.choice([-1, r.randint(1, 6), r.randint(1, 6)])

    def anyid(self):
        r = self.r
        return r.choice(self.live) if self.live and r.random() < .9 else RANK[r.choice(IDS)]

    def cond(self):
        r = self.r
        f = r.choice(STRF[:8] + TIMEF * 2 + ["msg_id"] * 2)
        ops = ["eq", "ne", "in", "nin", "lt", "gt", "lte", "gte"] + (["glob"] * 3 if f in STRF else [])
        op = r.choice(ops)
        v = RANK[r.choice(IDS)] if f == "msg_id" else self.val(f)
        if v == -1 and op not in ("eq", "ne"):
            v = RANK["ab"] if f in STRF else 6
        c = {"f": f, "op": op, "v": v, "plain": r.random() < .6}
        if op in ("in", "nin"):
            pool = [RANK[x] for x in IDS] if f == "msg_id" else list(range(1, 13)) if f in TIMEF else [RANK[x] for x in WORDS]
            c["vs"] = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, 6]))]
        if op == "glob":
            c["txt"] = r.choice(PATS)
        return c

    def conds(self):
        r = self.r
        out, seen = [], set()
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            c = self.cond()
            key = (c["f"], c["op"])
            plain = c["op"] == "eq" and c["plain"]
            if key in seen or (c["f"], "plain") in seen or (plain and any(k[0] == c["f"] for k in seen)):
                continue
            seen.add(key)
            if plain:
                seen.add((c["f"], "plain"))
            out.append(c)
        return out

    def step(self):
        r, s = self.r, self.s
        p = {"add": 5, "upd": 4, "get": 2, "drop": .7, "dropm": .7, "find": 3, "hist": 1, "adv": 1, "reopen": .5, "crash": .4}
        if self.prof == "query":
            p["find"], p["dropm"] = 8, 1.5
        if self.prof == "cull":
            p["add"], p["upd"], p["find"] = 9, 7, 1
        if self.prof == "store":
            p["reopen"], p["crash"], p["adv"] = 1.5, 1.2, 2
        k = r.choices(list(p), list(p.values()))[0]
        if k == "add":
            if self.free and (r.random() < .92 or not self.live):
                i = self.free.pop()
            elif self.live and not self.cull:
                i = r.choice(self.live)
            else:
                return
            rec = {f: self.val(f) for f in FIELDS}
            rec["msg_id"] = i
            self.tick += 1
            if self.cull:  # distinct times
                rec["submitted"] = -1 if r.random() < .06 else self.tick * 10 + r.choice([0, -45, 5])
            s.add(rec)
            if i not in self.live:
                self.live.append(i)
        elif k == "upd":
            fs = [f for f in FIELDS if f != "msg_id" and not (self.cull and f == "submitted")]
            s.upd(self.anyid(), {f: self.val(f) for f in r.sample(fs, r.randint(1, 5)) + (["result_buffers"] if self.cull else [])})
        elif k == "get":
            s.get(self.anyid())
        elif k == "drop":
            i = self.anyid()
            s.drop(i)
            if not self.cull and i in self.live:
                self.live.remove(i)
                self.free.insert(0, i)
        elif k == "dropm":
            c = self.conds()
            if c or r.random() < .2:
                s.dropm(c)
        elif k == "find":
            s.find(self.conds(), [] if r.random() < .4 else r.sample(FIELDS, r.randint(1, 4)))
        elif k == "hist":
            s.hist()
        elif k == "adv":
            s.adv(r.choice([1, 3, 12, 30]))
        else:
            getattr(s, k)()


def blank(i):
    return {**{f: -1 for f in FIELDS}, "msg_id": i}


def main():
    out, mode, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    with open(out, "w") as f:
        def dump(s, i):
            s.done()
            f.write(json.dumps({"id": i, "cfg": s.cfg, "ev": s.ev}) + "\n")
        if mode == "script":
            scripts = [json.loads(l) for l in open(sys.argv[5])]
            for i, sc in enumerate(scripts):
                for kind in sys.argv[4].split(","):
                    L = sc["lim"]
                    if (L["recs"] >= 0 or L["bytes"] >= 0) and kind != "dict":
                        continue
                    r = random.Random(seed * 31 + i)
                    # model buffer sizes 1, 2, 4 are the real tokens below, limits scaled alike
                    s = Sim(r, kind, L["recs"], L["bytes"] * 10 if L["bytes"] >= 0 else -1, L["pct"])
                    tok = {-1: -1, 1: 3, 2: 4, 3: 5}   # sizes 10, 20, 40
                    idr = lambda n: RANK[IDS[n - 1]]
                    for o in sc["ops"]:
                        if o["k"] == "add":
                            s.add({**blank(idr(o["i"])), "submitted": o["t"], "buffers": tok[o["b"]]})
                        elif o["k"] == "upd":
                            s.upd(idr(o["i"]), {"completed": o["c"], "result_buffers": tok[o["b"]]})
                        elif o["k"] == "drop":
                            s.drop(idr(o["i"]))
                        else:
                            v = idr(o["v"]) if o["f"] == "msg_id" else o["v"]
                            s.dropm([{"f": o["f"], "op": o["op"], "v": v, "vs": [v], "plain": i % 2}])
                        if kind == "sqlite" and r.random() < .1:
                            s.reopen()
                    s.hist()
                    s.find([])
                    dump(s, i)
        else:
            profs = sys.argv[5].split(",")
            for i in range(int(sys.argv[4])):
                if STUCK > 4:
                    break
                r = random.Random(seed * 7919 + i)
                prof = profs[i % len(profs)]
                kind = {"cull": "dict"}.get(prof) or r.choice(["dict", "sqlite", "sqlite"] if prof != "store" else ["sqlite", "sqlite", "sqlite", "dict", "none"])
                lim = {}
                if prof == "cull":
                    lim = r.choice([dict(recs=r.randint(1, 8)), dict(byts=r.choice([10, 30, 60, 100, 200])), dict(recs=r.randint(2, 8), byts=r.choice([30, 100, 200]))])
                    lim["pct"] = r.choice([0, 25, 50, 75, 100])
                s = Sim(r, kind, **lim)
                g = Gen(s, r, prof)
                for _ in range(r.randint(8, 40)):
                    g.step()
                s.hist()
                s.reopen()
                s.find([])
                dump(s, i)


main()
