"""C02: storage calls tell the truth, also when files fail (spec/Store.tla)."""
import engine
from c01 import layout, CONSTS, PROPS


def history(rng, length, many):
    lay = layout(rng, False)
    while lay["single"] == many:
        lay = layout(rng, False)
    if many:
        # more files than handles are kept open
        lay = dict(pl=rng.choice([2, 3, 5]), lens=[rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.randrange(18, 26))], single=False)
        lay["lens"][0] += 1
    total, pl = sum(lay["lens"]), lay["pl"]
    n = -(-total // pl)
    yield dict(op="open", lay=lay)
    faulty = False
    for _ in range(length):
        r = rng.random()
        p = rng.randrange(n + 1) if rng.random() < 0.2 else rng.randrange(n)
        if r < 0.4:
            yield dict(op="write", p=p, v=rng.randrange(1, 5), shape=rng.choice(["exact"] * 8 + ["padded", "short", "missing", "uneven"]))
        elif r < 0.8:
            yield dict(op="read", p=p, at=rng.randrange(pl), n=rng.randrange(1, pl + 1), room=rng.random() < 0.9)
        elif r < 0.85:
            yield dict(op="huge", kind=rng.choice(["piece", "begin", "length", "write"]))
        elif r < 0.9 and not faulty:
            yield dict(op="reopen")
        elif r < 0.95:
            yield dict(op="limit", at=rng.choice([0, 1, 2, 1000, 1000]))
        else:
            faulty = rng.random() < 0.5
            yield dict(op="nofds", on=faulty)


def check(c):
    c.graph("Store", "StoreFaults.cfg", "store", dict(map="block"), 90 if c.quick else 600)
    for many in (False, True):
        c.traces("Store", CONSTS, "store", dict(map="quarter"),
                 [history(c.rng, 40, many) for _ in range(30 if c.quick else 600)],
                 props=PROPS + ["OutsideIsAnError", "FailureIsReported"])
