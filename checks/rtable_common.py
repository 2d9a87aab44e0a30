"""Random histories for the routing table (spec/RTable.tla) with the real bucket size."""


def rid(rng, w):
    b = rng.randrange(0, w + 1)
    if b == w:
        return 0
    return (1 << (w - 1 - b)) | rng.randrange(1 << (w - 1 - b))


def touch(rng, x):
    """Now and then the same id comes from somewhere else."""
    return dict(op="touch", id=x, **({"from": 1} if rng.random() < 0.15 else {}))


def history(rng, w, length, persist=False, find=0.3, refresh=0.05, advance=0.04):
    known = []
    fill = rng.choice([0, 0, 40, 120])
    for _ in range(fill):
        x = rid(rng, w) if rng.random() < 0.7 else rng.randrange(1 << w)
        known.append(x)
        yield touch(rng, x)
    for _ in range(length):
        r = rng.random()
        if r < find:
            x = rng.choice(known) if known and rng.random() < 0.4 else rng.randrange(1 << w) if rng.random() < 0.5 else rid(rng, w)
            yield dict(op="find", id=x, near=rng.random() < 0.5)
        elif r < find + refresh:
            yield dict(op="refresh")
        elif r < find + refresh + advance:
            yield dict(op="advance")
            # some nodes answer, the others age
            for x in list(known):
                if rng.random() < 0.4:
                    yield touch(rng, x)
        elif persist and r < find + refresh + advance + 0.08:
            k = rng.random()
            if k < 0.45:
                yield dict(op="save")
            elif k < 0.9:
                o = yield dict(op="load")
                known = [x for x in o["ids"] if x >= 0] if isinstance(o, dict) and "ids" in o else []
            else:
                yield dict(op="damage", how=rng.randrange(8))
        else:
            x = rng.choice(known) if known and rng.random() < 0.2 else rid(rng, w) if rng.random() < 0.7 else rng.randrange(1 << w)
            known.append(x)
            yield touch(rng, x)


def traces(c, ops, w=8, runs=8, length=150, stretch=1, **kw):
    import engine
    consts = dict(W=w, K=8, Dead=2, Persist=0)
    c.traces("RTable", consts, "rtable", dict(w=w, g=1, tick=450, stretch=stretch),
             [history(c.rng, w, length, **kw) for _ in range(runs)], proj=engine.Proj(ops=ops))
