"""The drivers of the client and of retrieval, with somebody about who does not have the key.
usage: h_auth.py OUT client|ret SEED COUNT PROFILES"""
import sys
import h_client, h_ret
from intruder import Intruder


class CWorld(Intruder, h_client.World):
    pass


class XRWorld(Intruder, h_ret.RWorld):
    pass


def arm(mod, name, cls):
    setattr(mod, name, cls)
    play0 = mod.play

    def play(w, r, prof):
        w.rate = r.choice([.02, .05, .15])
        w.armed = True
        w.cfg["forge"] = True
        return play0(w, r, prof)
    mod.play = play


arm(h_client, "World", CWorld)
arm(h_ret, "RWorld", XRWorld)

if __name__ == "__main__":
    what = sys.argv.pop(2)
    sys.argv.insert(2, "random")
    (h_client if what == "client" else h_ret).main()
