"""C08: the handle on all peer sessions (spec/Sessions.tla)."""
from wire_common import HASH, OWN, send_msg

CONSTS = dict(Peers="<- ThreePeers", MaxQ="6", Floods="1", Replies="<- TwoReplies")
PROPS = ["ReportMeansEnd", "OthersUntouched", "SecondConnectIsNone"]


def history(rng, length):
    """Random use of the handle with three peers; the remote sides follow what really happened."""
    state = {1: "none", 2: "none", 3: "none"}
    waiting = 0
    for _ in range(length):
        p = rng.choice([1, 1, 2, 3])
        r = rng.random()
        if waiting >= 5 or r < 0.2:
            o = yield dict(op="recv")
            waiting = max(0, waiting - 1)
            said = o.get("said") if isinstance(o, dict) else None
            if said and isinstance(said[0], dict) and said[0]["m"]["k"] in ("unreachable", "disconnected"):
                state[said[0]["p"]] = "none"
            if not said:
                waiting = 0
        elif r < 0.4:
            up = rng.random() < 0.8
            yield dict(op="connect", p=p, up=up)
            if state[p] == "none":
                state[p] = "dial" if up else "dead"
                waiting += not up
        elif r < 0.55 and state[p] == "dial":
            good = rng.random() < 0.8
            yield dict(op="shake", p=p, good=good)
            state[p] = "open" if good else "dead"
            waiting += not good
        elif r < 0.65 and state[p] == "open":
            yield dict(op="say", p=p, m=rng.choice([dict(k="have", v=[0, 0, 0, rng.randrange(256)], b=[]),
                                                    dict(k="unchoke", v=[], b=[]), dict(k="choke", v=[], b=[])]))
            waiting += 1
        elif r < 0.75 and state[p] in ("dial", "open"):
            yield dict(op="close", p=p, how=rng.choice(["fin", "rst"]))
            state[p] = "dead"
            waiting += 1
        elif r < 0.9:
            i = send_msg(rng)
            while i["m"]["k"] in ("keepalive", "request"):
                i = send_msg(rng)
            yield dict(i, p=p)
        elif r < 0.91 and state[p] == "open":
            yield dict(op="flood", p=p, n=rng.choice([20, 40, 450]), 
                       ms=[dict(k="piece", v=[0] * 8, b=[[rng.randrange(256), 16384]])])
        else:
            yield dict(op="disconnect", p=p)
            state[p] = "none"
        if all(s == "none" for s in state.values()):
            yield dict(op="idle")


def check(c):
    cfg = dict(own=OWN, hash=HASH, peers=2)
    c.graph("Sessions", "Sessions.cfg" if c.quick else "SessionsDeep.cfg", "sessions", cfg, 200 if c.quick else 1500,
            confirm=3, slow_env={"CONF_SLOW": "1"}, max_path=60)
    n = 10 if c.quick else 300
    c.traces("Sessions", CONSTS, "sessions", dict(cfg, peers=3), [history(c.rng, 120) for _ in range(n)], props=PROPS, confirm=3)
