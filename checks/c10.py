"""C10: blocks are asked for, and pieces arrive whole and right (spec/Fetch.tla)."""
from wire_common import HASH, OWN

B = 16384
SHORT = [[B, B], [B, 5]]
ONE = [[B, B]]
LONG = [[B] * 17 + [77]]
MANY = [[B] * 4] * 3 + [[B, B, B, 1]]
CONSTS = dict(BL="<- GeoMany", Peers="<- ThreePeers", Cap="16", Style='"all"')
PROPS = ["OnlyRight", "Polite", "NothingForgotten", "Eager", "HonestCounts"]
# in recorded traces, who was asked for what is known
HINT = """
Asked(p) == LET r == Trace[l].o.reqs[p] IN {Id(r[n][1], r[n][2]) : n \\in 1..Len(r)}
HintSome(S) == {S \\cap UNION {Asked(p) : p \\in Peers}}
HintWays(S) == {f \\in {[x \\in S |-> {p \\in Peers : x \\in Asked(p)}]} : \\A x \\in S : f[x] # {}}
"""
OVER = [("Some", "HintSome"), ("Ways", "HintWays")]


def u32(n):
    return list(n.to_bytes(4, "big"))


def fill(n, b, twist=0):
    return [] if n <= 0 else [[b, n]] if not twist else ([[b, n - 1]] if n > 1 else []) + [[(b + twist) % 256, 1]]


def answer(p, k, b, kind="good"):
    n, x = MANY[k][b], (16 * k + b + 1) % 251
    d = {"good": fill(n, x), "twist": fill(n, x, 7), "short": fill(n - 1, x), "long": fill(n, x) + [[200, 1]],
         "empty": [], "other": fill(n, 255)}[kind]
    return dict(op="block", p=p, m=dict(k="piece", v=u32(k) + u32(b * B), b=d))


def strange(rng, p):
    k, g = rng.choice([(0, 1), (0, B - 1), (4, 0), (0, 4 * B), (2**32 - 1, 0), (3, 2**32 - B), (1, 2**31), (2**31, B)])
    return dict(op="block", p=p, m=dict(k="piece", v=u32(k) + u32(g), b=[[9, rng.choice([1, 5, B])]]))


def history(rng, length):
    """Peers that answer, lie, stay silent, choke and vanish; at the end one of them is honest."""
    up, ch, asked = {1, 2, 3}, {1, 2, 3}, {1: set(), 2: set(), 3: set()}
    finished = set()

    def do(i):
        o = yield i
        if isinstance(o, dict) and "reqs" in o:
            for p in (1, 2, 3):
                asked[p] |= {(r[0], r[1]) for r in o["reqs"][p - 1]}
            for f in o["fin"]:
                finished.add(f["k"])

    honest = rng.choice([0.5, 0.8, 1.0])
    for _ in range(length):
        p, r = rng.choice([1, 2, 3]), rng.random()
        if r < 0.15:
            yield from do(dict(op="get", p=p, k=rng.randrange(4)))
        elif r < 0.3 and p in up:
            yes = p not in ch if rng.random() < 0.9 else rng.random() < 0.5
            (ch.add if yes else ch.discard)(p)
            yield from do(dict(op="choke" if yes else "unchoke", p=p, yes=yes))
        elif r < 0.36 and p in up and p not in ch and rng.random() < 0.4:
            up.discard(p)
            ch.add(p)
            asked[p] = set()
            yield from do(dict(op="lose", p=p))
        elif r < 0.45 and p not in up:
            up.add(p)
            yield from do(dict(op="open", p=p))
        elif r < 0.5:
            yield from do(dict(op="wait"))
        elif r < 0.55 and p in up:
            yield from do(strange(rng, p))
        elif p in up:
            known = sorted(asked[p])
            if known and rng.random() < 0.9:
                k, b = rng.choice(known)
            else:
                k, b = rng.randrange(4), rng.randrange(4)
            if not (0 <= k < 4 and 0 <= b < 4):
                continue
            kind = "good" if rng.random() < honest else rng.choice(["twist", "short", "long", "empty", "other"])
            if kind == "good":
                asked[p].discard((k, b))
            yield from do(answer(p, k, b, kind))
    p = rng.choice([1, 2, 3])
    if p not in up:
        yield from do(dict(op="open", p=p))
    yield from do(dict(op="unchoke", p=p, yes=False))
    for k in range(4):
        yield from do(dict(op="get", p=p, k=k))
    finished.clear()
    for _ in range(4):
        asked[p].clear()
        yield from do(dict(op="wait"))
        while asked[p]:
            k, b = rng.choice(sorted(asked[p]))
            asked[p].discard((k, b))
            if not (0 <= k < 4 and 0 <= b < 4):
                return
            yield from do(answer(p, k, b))


def check(c):
    cfg = lambda bl, peers: dict(own=OWN, hash=HASH, peers=peers, bl=bl)
    kw = dict(confirm=3, slow_env={"CONF_SLOW": "1"}, max_path=60)
    c.graph("Fetch", "Fetch.cfg", "fetch", cfg(SHORT, 1), 40 if c.quick else 600, **kw)
    c.graph("Fetch", "FetchPair.cfg", "fetch", cfg(ONE, 2), 25 if c.quick else 400, **kw)
    c.graph("Fetch", "FetchLong.cfg", "fetch", cfg(LONG, 1), 25 if c.quick else 600, **kw)
    n = 12 if c.quick else 400
    c.traces("Fetch", CONSTS, "fetch", cfg(MANY, 3), [history(c.rng, 80) for _ in range(n)], props=PROPS,
             extra=HINT, overrides=OVER, confirm=3)
