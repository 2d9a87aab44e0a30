"""C09: the ledger of blocks in progress (spec/Ledger.tla)."""

GEO = {
    "Tail": dict(pl=32768, total=32768 + 100, sizes=[[16384, 16384], [100]]),
    "Exact": dict(pl=16384, total=32768, sizes=[[16384], [16384]]),
    "Odd": dict(pl=20000, total=20000 + 16385, sizes=[[16384, 3616], [16384, 1]]),
    "Wide": dict(pl=3 * 16384, total=36 * 16384 + 16391, sizes=[[16384] * 3] * 12 + [[16384, 7]]),
    "Big": dict(pl=39 * 16384 + 1000, total=2 * (39 * 16384 + 1000) + 19 * 16384 + 5000,
                sizes=[[16384] * 39 + [1000]] * 2 + [[16384] * 19 + [5000]]),
}
HINT = """HintPick(k, S) == LET B == {<<x[1], x[2]>> : x \\in Range(Trace[l].o.got)} \\cap S
                     IN IF Cardinality(B) = k THEN {B} ELSE {}"""
PROPS = ["OneAtATime", "BudgetKept", "BudgetUsed", "CompleteOnlyWhenAllReceived", "RefusedChangesNothing", "ReceivedIsKept"]


def history(rng, sizes, peers, length, data=0.8):
    np = len(sizes)
    ask = {q: set() for q in range(peers)}
    for _ in range(length):
        r = rng.random()
        if r < 0.12:
            yield dict(op="add", p=rng.randrange(np + 1))
        elif r < 0.35:
            q = rng.randrange(peers)
            ps = rng.sample(range(np), rng.randrange(np + 1)) if rng.random() < 0.5 else list(range(np))
            o = yield dict(op="take", q=q, ps=ps, room=rng.choice([0, 1, 2, 5, 16]))
            if isinstance(o, dict):
                ask[q] |= {(a, b) for a, b, _ in o.get("got", []) if 0 <= a < np}
        elif r < data:
            q = rng.randrange(peers)
            if ask[q] and rng.random() < 0.85:
                p, b = rng.choice(sorted(ask[q]))
                if rng.random() < 0.9:
                    ask[q].discard((p, b))
            else:
                p = rng.randrange(np)
                b = rng.randrange(len(sizes[p]) + 1)
            n = sizes[p][b] if b < len(sizes[p]) else 16384
            if rng.random() < 0.12:
                n = rng.choice([0, n - 1, n + 1, 16384, 100])
            yield dict(op="data", q=q, p=p, b=b, len=n, c=rng.randrange(2))
        elif r < data + 0.05:
            q = rng.randrange(peers)
            yield dict(op="cancel", q=q)
        else:
            yield dict(op="tick")


def consts(g, dead, peers=2):
    return dict(BL="<- Geo" + g, Peers="{0}", Dead=dead, MaxPieces=10)


def check(c):
    def hcfg(g, tick, peers=2):
        return dict(pl=GEO[g]["pl"], total=GEO[g]["total"], tick=tick, peers=peers)

    for g in ["Tail", "Exact"] + ([] if c.quick else ["Odd"]):
        c.graph("Ledger", "Ledger%s.cfg" % g, "ledger", hcfg(g, 8), 100 if c.quick else 900)
    # one-second quanta: a request times out after more than 7 seconds
    for g, peers, runs, length in [("Odd", 3, 20, 60), ("Wide", 4, 12, 120), ("Big", 4, 8, 200)]:
        c.traces("Ledger", consts(g, 8), "ledger", hcfg(g, 1, peers),
                 [history(c.rng, GEO[g]["sizes"], peers, length) for _ in range(runs if c.quick else runs * 20)],
                 props=PROPS, extra=HINT, overrides=[("Selections", "HintPick")])
    # half seconds
    for g, peers, runs, length in [("Odd", 3, 12, 70), ("Wide", 4, 4, 150)]:
        c.traces("Ledger", consts(g, 15), "ledger", dict(hcfg(g, 1, peers), ms=500),
                 [history(c.rng, GEO[g]["sizes"], peers, length, data=0.5) for _ in range(runs if c.quick else runs * 20)],
                 props=PROPS, extra=HINT, overrides=[("Selections", "HintPick")])
    take = lambda q, room, *ps: dict(op="take", q=q, ps=list(ps), room=room)
    data = lambda p, b, n, v=0: dict(op="data", p=p, b=b, len=n, c=v)
    add = lambda p: dict(op="add", p=p)
    scenarios = [
        ([add(0)], [[take(0, 1, 0), data(0, 0, 16384)], [take(1, 2, 0), data(0, 1, 3616)], [take(2, 1, 0)]]),
        ([add(0), add(1), take(0, 3, 0, 1)], [[data(0, 0, 16384, 0), data(0, 1, 3616, 0)], [data(0, 0, 16384, 1), data(0, 1, 3616, 1)], [dict(op="cancel", q=0), take(1, 4, 0, 1)]]),
        ([], [[add(0), take(0, 2, 0)], [add(0), take(1, 2, 0)], [add(0), data(0, 1, 3616, 1), data(0, 0, 16384, 1)]]),
    ]
    cc = consts("Odd", 8)
    c.concurrent("Ledger", cc, "ledger", scenarios, 1500 if c.quick else 60000, cfg=hcfg("Odd", 1, 3))
