"""Shared by the DHT checks C17-C21 (spec/Dht.tla)."""
KW = dict(confirm=3, slow_env={"CONF_SLOW": "1"}, max_path=80)
PROPS = ["OnlyAwaited", "OnlyWithToken", "OneAnswer", "Apart", "NotTwice", "FewTold", "OnlyTokened", "Used"]
KINDS = ["ping", "find", "get", "ann"]
RIGHT = dict(ping=["id"], ann=["id"], find=["nodes"], get=["gnodes", "gvalues", "gboth"])


def cfg(n, twins, loaded, pool):
    return dict(n=n, twins=twins, loaded=loaded, pool=pool)


def consts(n, twins, loaded, pool):
    names = {(): "NoNodes", (1,): "OneNode", (1, 2): "TwoNodes", (1, 3): "SomeNodes"}
    return dict(N=n, Twins=str(twins).upper(), Loaded="<- " + (names.get(tuple(loaded)) or "AllNodes"), Pool=pool, Style='"any"', MaxTime=0)


def enc(v):
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, (bytes, bytearray)):
        return b"%d:" % len(v) + bytes(v)
    if isinstance(v, list):
        return b"l" + b"".join(map(enc, v)) + b"e"
    return b"d" + b"".join(enc(k) + enc(v[k]) for k in sorted(v)) + b"e"


def garbage(rng):
    """Bytes that were a message once."""
    node = lambda i: bytes([80 + i]) + bytes([i] * 19)
    args = {b"id": node(1)}
    m = {b"t": rng.choice([b"x", b"BB", b"", bytes(20), b"\xff\x00:e"]), b"y": b"q"}
    k = rng.randrange(6)
    if k < 4:
        m[b"q"] = [b"ping", b"find_node", b"get_peers", b"announce_peer"][k]
        if k == 1:
            args[b"target"] = rng.choice([node(1), node(2), bytes(20)])
        if k >= 2:
            args[b"info_hash"] = bytes([208] + [rng.choice([7, 9])] * 19)
        if k == 3:
            args.update({b"port": rng.choice([0, 1, 7001, 65535, 65536, -1]), b"token": bytes(rng.randrange(256) for _ in range(20))})
        m[b"a"] = args
    elif k == 4:
        m[b"y"] = b"r"
        args.update({b"nodes": node(2) + bytes([127, 0, 0, 12, 19, 138]), b"token": b"tk\x03"})
        m[b"r"] = args
    else:
        m[b"y"], m[b"e"] = b"e", [201, b"what"]
    b = bytearray(enc(m))
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 8])):
        w, at = rng.randrange(4), rng.randrange(len(b) + 1)
        if w == 0 and at < len(b):
            b[at] = rng.choice([rng.randrange(256), *b"0159deil:"])
        elif w == 1:
            b[at:at] = rng.choice([b"e", b"l", b"d", b"i7e", b"1:a", b"0:", b"le", b"de", bytes([rng.randrange(256)])])
        elif w == 2:
            del b[at:at + rng.choice([1, 1, 2, 20])]
        else:
            x, y = sorted((rng.randrange(len(b) + 1), at))
            b[x:y] = b[x:y] * rng.choice([0, 2])
        if not b:
            break
    return list(b)


def history(rng, n, twins, loaded, length, calm=None):
    """Everything a node can meet: asked, answered, misled, garbled at, left alone."""
    nodes = list(range(1, n + 1))
    count = {a: dict.fromkeys(KINDS, 0) for a in nodes}
    fresh = {a: dict.fromkeys(KINDS, 0) for a in nodes}   # queries nobody answered yet
    for a in loaded:
        count[a]["ping"] = fresh[a]["ping"] = 1
    w = dict(answer=rng.choice([1, 4, 12]), wrong=rng.choice([0, 1, 4]), ask=rng.choice([0.5, 3, 8]), tell=rng.choice([0.5, 3]),
             spoil=rng.choice([0, 1]), bytes=rng.choice([0, 1, 6]), found=rng.choice([0.1, 1]), adv=rng.choice([0.5, 2, 6]))
    w.update(calm or {})
    dead = {a for a in nodes if rng.random() < 0.15}
    spread = lambda: [1001 * i for i in rng.sample(nodes, rng.randrange((n if rng.random() < 0.2 else min(n, 4)) + 1))]
    nxt = [0]

    def do(i):
        o = yield i
        if isinstance(o, dict) and isinstance(o.get("sent"), list):
            for a in nodes:
                s = o["sent"][a - 1]
                for k, m in (("ping", s["ping"]), ("find", s["find"]), ("get", s["get"]), ("ann", len(s["ann"]))):
                    count[a][k] += m
                    fresh[a][k] = min(fresh[a][k] + m, 2)

    def resp(f, t, k, nth, c, nodes_, values, tk, i=None):
        return dict(op="r", **{"from": f}, to=t, kind=k, nth=nth, c=c, id=i or f, nodes=nodes_, values=values, tk=tk)

    for _ in range(length):
        ops, ws = zip(*w.items())
        op = rng.choices(ops, ws)[0]
        a = rng.choice(nodes)
        if op == "answer":
            open_ = [(t, k) for t in nodes if t not in dead for k in KINDS if fresh[t][k]]
            if not open_:
                op = "adv"
            else:
                t, k = rng.choice(open_)
                c = rng.choice(RIGHT[k])
                fresh[t][k] -= 1
                yield from do(resp(t, t, k, 1 if rng.random() < 0.9 else min(2, count[t][k]), c,
                                   spread() if c in ("nodes", "gnodes", "gboth") else [],
                                   [rng.randrange(1, 200) for _ in range(rng.choice([0, 1, 1, 2, 4]))] if c in ("gvalues", "gboth") else [],
                                   rng.randrange(1, 200)))
        if op == "spoil":
            # somebody else is quicker than the one who was asked
            open_ = [(t, k) for t in nodes for k in KINDS if fresh[t][k]]
            if open_:
                t, k = rng.choice(open_)
                f = 2 * n - 1 - t if twins and t >= n - 1 else rng.choice(nodes)
                c = rng.choice(RIGHT[k])
                list_ = spread() if c in ("nodes", "gnodes", "gboth") else []
                vals = [rng.randrange(1, 200)] if c in ("gvalues", "gboth") else []
                if f != t:
                    if rng.random() < 0.5:
                        yield from do(resp(f, t, k, 1, "error", [], [], 9))
                    else:
                        yield from do(resp(f, t, k, 1, c, list_, vals, 9))
                fresh[t][k] -= 1
                yield from do(resp(t, t, k, 1, c, list_, vals, 9))
        if op == "wrong":
            t, k = rng.choice(nodes), rng.choice(KINDS)
            nth = rng.randrange(min(2, count[t][k]) + 1)
            f = t if nth == 0 or rng.random() < 0.3 else rng.choice(nodes)
            c = rng.choice(RIGHT[rng.choice(KINDS)] + ["error"])
            if f != t or nth == 0 or c not in RIGHT[k]:
                yield from do(resp(f, t, k, nth, c, spread() if c in ("nodes", "gnodes", "gboth") else [],
                                   [1, 2] if c in ("gvalues", "gboth") else [], 9))
        if op == "ask":
            m = rng.choice([dict(q="ping"), dict(q="find_node", target=rng.choice(nodes + [0, 99])),
                            dict(q="get_peers", hash=rng.choice("TU")), dict(q="get_peers", hash=rng.choice("TTU")),
                            dict(q="vote"), dict(q="vote", target=rng.choice(nodes))])
            if rng.random() < 0.3:
                m["more"] = True
            yield from do(dict(op="q", **{"from": a}, tl=rng.choice([2, 2, 4, 8, 20, 40]), m=m))
        if op == "tell":
            m = dict(q="announce_peer", hash=rng.choice("TTTU"), port=rng.choice([0, 1, 7, 99, 500, 999]), token=rng.choice([-1, 0, a, a, a, a] + nodes))
            yield from do(dict(op="q", **{"from": a}, tl=2, m=m))
        if op == "bytes":
            yield from do(dict(op="bytes", **{"from": a}, to=a, kind="none", nth=0, bytes=garbage(rng)))
        if op == "found":
            yield from do(dict(op="found", p=a))
        if op == "adv":
            yield from do(dict(op="adv", n=rng.choice([1, 1, 2, 3, 5, 6, 7, 8, 14, 20, 40, rng.randrange(1, 130)])))
    yield from do(dict(op="stop"))


def traces(c, runs, length, calm=None, kinds=None):
    kinds = kinds or [(4, True, [1], 1), (5, False, [1, 2], 0), (3, True, [], 2), (6, False, [1, 3], 200), (5, True, [1, 2, 3, 4, 5], 19), (8, True, [1], 0)]
    for n, twins, loaded, pool in kinds:
        gens = [history(c.rng, n, twins, loaded, length, calm) for _ in range(runs)]
        c.traces("Dht", consts(n, twins, loaded, pool), "dht", cfg(n, twins, loaded, pool), gens, props=PROPS, confirm=3)


def wide(rng, n, length, values):
    """A search that meets more nodes than it goes on with."""
    fresh, known = set(), []
    done = [False]

    def do(i):
        o = yield i
        if isinstance(o, dict) and isinstance(o.get("sent"), list):
            for a, s in enumerate(o["sent"], 1):
                if s["get"]:
                    fresh.add(a)
                    if a not in known:
                        known.append(a)

    def answer(t, k, c, nodes, vals):
        return dict(op="r", **{"from": t}, to=t, kind=k, nth=1, c=c, id=t, nodes=[1001 * i for i in nodes], values=vals, tk=t % 200 + 1)

    yield from do(answer(1, "ping", "id", [], []))
    yield from do(dict(op="adv", n=14))
    for k in range(length):
        if not fresh or rng.random() < 0.01:
            yield from do(dict(op="adv", n=rng.choice([1, 2, 5])))
        if not fresh:
            yield from do(dict(op="adv", n=rng.choice([6, 20, 30])))
            continue
        t = rng.choice(sorted(fresh))
        fresh.discard(t)
        new = [a for a in range(2, n + 1) if a not in known]
        if k > 3 and rng.random() < values:
            yield from do(answer(t, "get", "gvalues", [], [rng.randrange(1, 200) for _ in range(3)]))
        else:
            near = rng.sample(new, min(len(new), 40)) + rng.sample(known, min(len(known), 4))
            yield from do(answer(t, "get", "gnodes", near, []))
    yield from do(dict(op="adv", n=6))
    yield from do(dict(op="adv", n=30))


def wide_traces(c, runs, length, n=600):
    for pool, values in ((0, 0.3), (200, 0.1)):
        c.traces("Dht", consts(n, False, [1], pool), "dht", cfg(n, False, [1], pool),
                 [wide(c.rng, n, length, values) for _ in range(runs)], props=PROPS, confirm=3)


def crowd(rng, most):
    """One torrent that very many peers announce themselves for, and another one with a few."""
    ask = lambda a, h: dict(op="q", **{"from": a}, tl=2, m=dict(q="get_peers", hash=h))
    for a in (2, 3):
        yield ask(a, "U")
    big, small = rng.sample("TU", 2)
    ports = rng.sample(range(1000), most)
    for k, p in enumerate(ports):
        a = rng.choice([2, 3])
        yield dict(op="q", **{"from": a}, tl=2, m=dict(q="announce_peer", hash=big if k % 20 else small, port=p, token=a))
        if k % 13 == 0 or k > most - 4:
            yield ask(rng.choice([2, 3]), big)
        if k % 40 == 0:
            yield ask(2, small)


def crowd_traces(c, runs, most):
    for pool in (0, 1):
        c.traces("Dht", consts(4, False, [1], pool), "dht", cfg(4, False, [1], pool), [crowd(c.rng, most) for _ in range(runs)], props=PROPS, confirm=3)


def storm(rng, n, queries):
    """More to do at once than any queue holds; afterwards all is as before."""
    R = lambda t, k, c, nodes: dict(op="r", **{"from": t}, to=t, kind=k, nth=1, c=c, id=t, nodes=[1001 * i for i in nodes], values=[], tk=1)
    q = lambda: dict(op="q", **{"from": rng.randrange(1, n + 1)}, tl=2, m=rng.choice(
        [dict(q="ping"), dict(q="find_node", target=0), dict(q="get_peers", hash="U"), dict(q="get_peers", hash="T")]))
    yield R(1, "ping", "id", [])
    yield dict(op="adv", n=14)
    yield R(1, "get", "gnodes", list(range(2, n + 1)))
    yield dict(op="storm", who=rng.sample(range(2, n + 1), n - 5), n=queries)
    for _ in range(4):
        yield q()
    yield dict(op="adv", n=6)
    yield q()
    yield dict(op="adv", n=15)
    yield q()


def storm_traces(c, runs, queries=20000):
    c.traces("Dht", consts(45, False, [1], 0), "dht", cfg(45, False, [1], 0), [storm(c.rng, 45, queries) for _ in range(runs)], props=PROPS, confirm=3)
