"""C12: the peer pool (spec/Peers.tla)."""
import engine

STATUSES = ["active", "unknown", "nouseful", "choked", "unable"]


def history(rng, n, length):
    """A long random history over n peers; keeps track of what was handed out to return some of it."""
    out = set()
    for _ in range(length):
        r = rng.random()
        h = rng.randrange(3)
        if r < 0.15:
            yield dict(op="insert", p=rng.randrange(n), h=h)
        elif r < 0.30:
            yield dict(op="extend", ps=[rng.randrange(n) for _ in range(rng.randrange(0, max(2, n // 4)))] or [0], h=h)
        elif r < 0.42:
            yield dict(op="list", n=rng.choice([0, 1, 2, n // 2, n]), h=h)
        elif r < 0.52:
            yield dict(op="enough", h=h)
        elif r < 0.62:
            yield dict(op="all", h=h)
        else:
            cand = sorted(out) if rng.random() < 0.8 and out else list(range(n))
            k = min(len(cand), rng.choice([0, 1, 1, 2, 3, 5]))
            back = rng.sample(cand, k)
            if rng.random() < 0.1 and back:
                back.append(back[0])
            bad = [dict(p=p, s=rng.choice(STATUSES[1:] if rng.random() < 0.95 else STATUSES)) for p in back]
            o = yield dict(op="take", bad=bad, n=rng.choice([0, 1, 2, 3, 7, n]), h=h)
            for b in back:
                out.discard(b)
            if isinstance(o, dict):
                out.update(o.get("ps", []))


HINT = """HintSubsets(k, S) == LET B == Range(Trace[l].o.ps)
                     IN IF B \\subseteq S /\\ Cardinality(B) = k THEN {B} ELSE {}"""
PROPS = ["NoDoubleHandOut", "RediscoveryIsHarmless", "ListingIsPure", "BatchBounded", "NothingForgotten"]


def check(c):
    c.graph("Peers", "Peers.cfg", "peers", {}, 60)
    c.graph("Peers", "PeersPairs.cfg", "peers", {}, 60)
    if not c.quick:
        c.graph("Peers", "PeersBig.cfg", "peers", {}, 600)
    for n, runs, length in ([(6, 6, 60), (40, 3, 80), (150, 3, 80)] if c.quick else [(6, 60, 200), (40, 30, 300), (150, 30, 300)]):
        c.traces("Peers", dict(N=n, EnoughPeers=128, BadLists="FALSE"), "peers", {},
                 [history(c.rng, n, length) for _ in range(runs)], props=PROPS,
                 extra=HINT, overrides=[("Subsets", "HintSubsets")])
    ins = lambda p: dict(op="insert", p=p)
    ext = lambda *ps: dict(op="extend", ps=list(ps))
    take = lambda n, *bad: dict(op="take", n=n, bad=[dict(p=p, s=s) for p, s in bad])
    lst, every = dict(op="list", n=2), dict(op="all")
    scenarios = [
        ([ext(0, 1, 2)], [[take(2)], [take(2)], [take(1)]]),
        ([ext(0, 1, 2), take(2)], [[ext(0, 1, 2), every], [take(1)], [ins(0), take(1)]]),
        ([ins(0), take(1)], [[take(1, (0, "choked"))], [ins(0), lst], [take(2)]]),
        ([ext(0, 1)], [[lst, take(1)], [lst, take(1)], [dict(op="enough"), ins(2)]]),
        ([ext(0, 1, 2), take(3)], [[take(1, (0, "nouseful"))], [take(1, (1, "unable"))], [take(1, (2, "choked"))]]),
    ]
    c.concurrent("Peers", dict(N=3, EnoughPeers=128, BadLists="FALSE"), "peers", scenarios, 3000 if c.quick else 100000)
