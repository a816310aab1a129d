"""Drive the real HeartMonitor.  usage: h_heart.py OUT random SEED COUNT | OUT script SEED 0 SCRIPTS"""
import json, random, sys
from fakes import *
import time
clock = Clock().install()
time.monotonic = clock.time
from tornado import ioloop
from jupyter_client.session import Session
from traitlets.config import Config


class FakePeriodic:
    made = []

    def __init__(self, cb, period, *a, **k):
        self.cb, self.period, self.on = cb, period, False
        FakePeriodic.made.append(self)

    def start(self):
        self.on = True

    def stop(self):
        self.on = False


ioloop.PeriodicCallback = FakePeriodic
from ipyparallel.controller.heartmonitor import HeartMonitor


class Sim:
    def __init__(self, mx, period):
        self.cfg = {"max": mx, "period": period}
        self.ev = []
        self.pings = []
        self.out = []
        self.sess = Session(key=b"")
        mk = lambda n: FakeStream(n, self.sent)
        self.st = {n: mk(n) for n in ("ping", "pong", "monitor")}
        FakePeriodic.made = []
        c = Config()
        c.Session.key = b""
        self.hm = HeartMonitor(ping_stream=self.st["ping"], pong_stream=self.st["pong"], monitor_stream=self.st["monitor"],
                               session=Session(key=b""), period=period, max_heartmonitor_misses=mx, config=c)
        self.hm.start()
        p = [x for x in FakePeriodic.made if x.on]
        self.cb = p[0].cb
        self.ev.append({"k": "start", "period": int(p[0].period) if len(p) == 1 else -1})

    def sent(self, name, frames):
        if name == "ping":
            self.pings.append(frames[0])
        elif name == "monitor":
            idents, msg = self.sess.feed_identities(frames)
            if idents and idents[0] == b"heartmonitor":
                m = self.sess.deserialize(msg)
                for h in m["content"]["hearts"]:
                    self.out.append((m["header"]["msg_type"], int(h[1:])))

    def pong(self, h, a):
        """a: 0 latest ping, 1 previous, 2 stale, 3 latest and still in the socket at the next beat, 4 garbage"""
        if a in (0, 3):
            age, txt = 0, self.pings[-1] if self.pings else None
        elif a in (1, 4):
            age, txt = 1, self.pings[-2] if len(self.pings) > 1 else None
        else:
            age, txt = 2, self.pings[-3] if len(self.pings) > 2 else b"nonsense"
        if txt is None:
            return
        n = len(self.out)
        fr = [b"h%d" % h, txt]
        if a >= 3:
            self.st["pong"].inbox.append(fr)
        else:
            try:
                self.st["pong"].deliver(fr)
            except Exception:
                pass
        self.ev.append({"k": "pong", "h": h, "age": age, "quiet": len(self.out) == n})

    def beat(self, dt=None):
        clock.t += dt or self.cfg["period"] / 1000
        self.out = []
        n = len(self.pings)
        try:
            self.cb()
        except Exception:
            pass
        self.ev.append({"k": "beat", "ping": len(self.pings) - n,
                        "new": [h for k, h in self.out if k == "new_heart"], "stopped": [h for k, h in self.out if k == "stopped_heart"]})


def main():
    out, mode, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    with open(out, "w") as f:
        def dump(s, i):
            f.write(json.dumps({"id": i, "cfg": s.cfg, "ev": s.ev}) + "\n")
        if mode == "script":
            for i, line in enumerate(open(sys.argv[5])):
                o = json.loads(line)
                s = Sim(o["max"], 1000)
                s.beat()
                s.beat()
                for x in o["ops"]:
                    s.pong(x["h"], x["a"]) if x["k"] == "pong" else s.beat()
                dump(s, i)
        else:
            for i in range(count):
                r = random.Random(seed * 7919 + i)
                s = Sim(r.choice([0, 1, 2, 3, 5, 10]), r.choice([100, 1000, 3000]))
                nh = r.randint(1, 5)
                p = {h: r.choice([.97, .9, .7, .4, .1]) for h in range(1, nh + 1)}
                for _ in range(r.randint(5, 40)):
                    hs = list(range(1, nh + 1))
                    r.shuffle(hs)
                    for h in hs:
                        if r.random() < .08:
                            p[h] = r.choice([.97, .7, .1, 0])
                        if r.random() < p[h]:
                            s.pong(h, r.choice([0, 0, 0, 0, 1, 2, 3]))
                            if r.random() < .1:
                                s.pong(h, r.choice([0, 1, 2]))
                    s.beat(r.choice([None, None, s.cfg["period"] / 1000 * 1.5, 0.001]))
                dump(s, i)


main()
