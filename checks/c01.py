"""C01: piece bytes land where the layout puts them (spec/Store.tla)."""
import engine


def layout(rng, exact):
    """A random layout; exact: piece length in whole blocks (4 units)."""
    pl = rng.choice([4, 8]) if exact else rng.choice([1, 2, 3, 4, 5, 6, 7, 10])
    total = rng.choice([1, pl - 1, pl, pl + 1, 2 * pl, 3 * pl - 1, 3 * pl, rng.randrange(1, 5 * pl)])
    total = max(1, total)
    if rng.random() < 0.25:
        return dict(pl=pl, lens=[total], single=True)
    cuts = sorted(rng.randrange(total + 1) for _ in range(rng.choice([0, 1, 2, 4, 8, 24])))
    for k in range(len(cuts)):
        # many ends right at or beside a piece boundary
        if rng.random() < 0.4:
            cuts[k] = min(total, max(0, cuts[k] // pl * pl + rng.choice([-1, 0, 0, 1])))
    cuts = [0] + sorted(cuts) + [total]
    return dict(pl=pl, lens=[b - a for a, b in zip(cuts, cuts[1:])], single=False)


def history(rng, length, exact):
    lay = layout(rng, exact)
    total, pl = sum(lay["lens"]), lay["pl"]
    n = -(-total // pl)
    yield dict(op="open", lay=lay)
    for _ in range(length):
        r = rng.random()
        p = rng.randrange(n)
        if r < 0.45:
            yield dict(op="write", p=p, v=rng.randrange(1, 5), shape="exact" if rng.random() < 0.8 else "padded")
        elif r < 0.95:
            at = rng.randrange(min(pl, total - p * pl))
            k = rng.randrange(1, min(pl, total - p * pl) - at + 1)
            yield dict(op="read", p=p, at=at, n=k, room=True)
        else:
            yield dict(op="reopen")


PROPS = ["OnlyThisPiece", "WrittenIsThere", "ReadIsLastWritten", "OnlyWritesWrite"]
CONSTS = dict(Layouts="{}", Versions="{1}", Mode='"good"')


def check(c):
    c.graph("Store", "StoreGood.cfg" if c.quick else "StoreBig.cfg", "store", dict(map="edgy"), 90 if c.quick else 700)
    for m in ("edgy", "quarter"):
        c.traces("Store", CONSTS, "store", dict(map=m),
                 [history(c.rng, 25, m == "edgy") for _ in range(40 if c.quick else 800)], props=PROPS)
    # beyond 4 GiB (sparse files)
    c.traces("Store", CONSTS, "store", dict(map="edgy", far=(1 << 32) - 3 * 16384),
             [history(c.rng, 20, True) for _ in range(15 if c.quick else 300)], props=PROPS)
