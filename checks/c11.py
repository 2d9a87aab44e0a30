"""C11: the torrent manager and its peers (spec/Swarm.tla)."""

import random

PROPS = ["OnlyUseful", "OnlyRight", "Replaced", "Served"]
# in recorded traces, who was asked for what, and who was connected, is known
HINT = """
SetOf(s) == {s[n] : n \\in 1..Len(s)}
HintSome(S) == {S \\cap UNION {SetOf(Trace[l].o.reqs[p]) : p \\in Peers}}
HintNew(S, least, most) == LET A == {p \\in Peers : Trace[l].o.acc[p] = 1}
                           IN IF A \\subseteq S /\\ Cardinality(A) >= least /\\ Cardinality(A) <= most THEN {A} ELSE {}
HintAsked(P, may) == LET R == [p \\in Peers |-> SetOf(Trace[l].o.reqs[p])]
                     IN IF \\A p \\in Peers : R[p] \\subseteq (IF p \\in P THEN may[p] ELSE {}) THEN {R} ELSE {}
"""
OVER = [("Some", "HintSome"), ("SomeNew", "HintNew"), ("SomeAsked", "HintAsked")]


def consts(peers, np):
    return dict(Peers="<- " + peers, Pool="<- OnePeer", NP=np, Slots=10, Active=9, Load=4, Share=3, Style='"plain"')


def history(rng, n, np, length):
    """Peers that come and go, announce, choke, answer rightly, wrongly or not at all."""
    peers = list(range(1, n + 1))
    con, up, ch = set(), set(peers), set(peers)
    asked = {p: set() for p in peers}
    honest = {p: rng.choice([0, 0.5, 0.9, 1]) for p in peers}
    chatty = rng.choice([0.02, 0.1, 0.3])

    def do(i):
        o = yield i
        if isinstance(o, dict) and "live" in o:
            for p in peers:
                if o["live"][p - 1] and p not in con:
                    con.add(p)
                    ch.add(p)
                    asked[p].clear()
                if not o["live"][p - 1]:
                    con.discard(p)
                asked[p].update(o["reqs"][p - 1])
                asked[p].difference_update(o["disk"])

    for p in peers[1:]:
        if rng.random() < 0.8:
            yield from do(dict(op="found", p=p))
    yield from do(dict(op="tick"))
    for _ in range(length):
        r, p = rng.random(), rng.choice(peers)
        if r < chatty:
            p = rng.choice(peers)
            if p in con:
                w = rng.choice(["keepalive", "interested", "notinterested", "request", "cancel", "port", "unknown", "wildrequest",
                                "wildcancel", "have", "bitfield"])
                if w == "have":
                    big, k = rng.choice([(0, np), (0, np + 7), (1, 0), (65535, 65535), (32768, 0)])
                    yield from do(dict(op="have", p=p, k=k, big=big))
                elif w == "bitfield":
                    b = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, (np + 7) // 8, (np + 7) // 8]))]
                    yield from do(dict(op="bitfield", p=p, bytes=b))
                else:
                    yield from do(dict(op="idle", p=p, what=w))
        elif r < 0.3 and p in con:
            if rng.random() < 0.5:
                yield from do(dict(op="have", p=p, k=rng.randrange(np), big=0))
            else:
                b = [rng.choice([255, 255, rng.randrange(256)]) for _ in range((np + 7) // 8)]
                yield from do(dict(op="bitfield", p=p, bytes=b))
        elif r < 0.45 and p in con:
            yes = p not in ch
            if yes and rng.random() < 0.5:
                continue
            (ch.add if yes else ch.discard)(p)
            yield from do(dict(op="choke", p=p, yes=yes))
        elif r < 0.5 and p in con and rng.random() < 0.5:
            down = rng.random() < 0.4
            if down:
                up.discard(p)
            yield from do(dict(op="lose", p=p, down=down))
        elif r < 0.53:
            if p not in up:
                up.add(p)
                yield from do(dict(op="up", p=p))
            elif rng.random() < 0.3:
                yield from do(dict(op="found", p=p))
        elif r < 0.65:
            yield from do(dict(op="tick"))
        elif r < 0.68:
            yield from do(dict(op="wait"))
        elif p in con:
            if rng.random() < 0.9 and any(asked[q] & set(range(np)) and q in con for q in peers):
                p = rng.choice([q for q in peers if q in con and asked[q] & set(range(np))])
                k = rng.choice(sorted(asked[p] & set(range(np))))
            else:
                k = rng.randrange(np + 1)
            kind = "good" if rng.random() < honest[p] or k == np else rng.choice(["twist", "short"])
            if rng.random() < honest[p] + 0.1:
                yield from do(dict(op="block", p=p, k=k, kind=kind))


def insistent(rng, np):
    """A peer that says the same thing more often than 16 bits can count, and is still served."""
    yield dict(op="tick")
    k = rng.randrange(np)
    yield dict(op="have", p=1, k=k, big=0)
    yield dict(op="have", p=1, k=k, big=0, hundreds=700)
    yield dict(op="have", p=1, k=(k + 1) % np, big=0)
    yield dict(op="choke", p=1, yes=False)
    yield dict(op="tick")
    for j in (k, (k + 1) % np):
        yield dict(op="block", p=1, k=j, kind="good")


def stuffed(rng, np):
    """A peer that sends nonsense and does not read what it is asked, while two others serve everything."""
    for p in (2, 3):
        yield dict(op="found", p=p)
    yield dict(op="tick")
    for p in (1, 2, 3):
        yield dict(op="bitfield", p=p, bytes=[255] * (np // 8))
    yield dict(op="choke", p=1, yes=False)
    o = yield dict(op="tick")
    o = yield dict(op="stuff", p=1, k=rng.choice(o["reqs"][0]))
    if not o["full"]:
        return
    for p in (2, 3):
        o = yield dict(op="choke", p=p, yes=False)
    asked = set()
    for _ in range(2 * np):
        o = yield dict(op="tick" if asked else "wait")
        for p in (2, 3):
            asked |= {(p, k) for k in o["reqs"][p - 1]}
        if asked:
            p, k = rng.choice(sorted(asked))
            o = yield dict(op="block", p=p, k=k, kind="good")
            asked |= {(p, k) for k in o["reqs"][p - 1]}
            asked = {x for x in asked if x != (p, k) and x[1] not in o["disk"]}
        if len(o["disk"]) == np:
            return


def check(c):
    kw = dict(confirm=3, slow_env={"CONF_SLOW": "1"}, max_path=60)
    cfg = lambda n, np, pool: dict(peers=n, np=np, pool=pool)
    c.graph("Swarm", "SwarmOdd.cfg", "swarm", cfg(1, 2, [1]), 40 if c.quick else 300, **kw)
    c.graph("Swarm", "Swarm.cfg", "swarm", cfg(2, 2, [1]), 35 if c.quick else 900, **kw)
    for peers, n, np, runs in [("ThreePeers", 3, 6, 12), ("ManyPeers", 12, 14, 10), ("ThreePeers", 3, 20, 6)]:
        gens = [history(c.rng, n, np, 100 if n < 9 else 160) for _ in range(runs if c.quick else runs * 30)]
        c.traces("Swarm", consts(peers, np), "swarm", cfg(n, np, [1]), gens, props=PROPS, extra=HINT, overrides=OVER, confirm=3)
    c.traces("Swarm", consts("ThreePeers", 6), "swarm", cfg(3, 6, [1]), [insistent(c.rng, 6)], props=PROPS, extra=HINT, overrides=OVER, confirm=3)
    seed = c.rng.random()
    c.traces("Swarm", consts("ThreePeers", 160), "swarm", cfg(3, 160, [1]), [lambda: stuffed(random.Random(seed), 160)], props=PROPS, extra=HINT, overrides=OVER, confirm=3)
