"""C23: announce requests and tracker responses (spec/Tracker.tla)."""
from tracker_common import cfg, consts, traces, KW, PROPS
from dht_common import enc


def hello(h, url):
    """The first announce and the next, whose URL carries a tracker id."""
    yield dict(op="go", h=h, url=url)
    yield dict(op="ans", t=1, how="full", bytes=list(enc({b"interval": 5, b"peers": b"", b"tracker id": bytes(range(16 * h, 16 * h + 16))})))
    yield dict(op="piece")
    yield dict(op="adv", n=5)
    yield dict(op="stop")


def check(c):
    c.graph("Tracker", "TrackerBytes.cfg", "tracker", cfg(1, 2), 60 if c.quick else 300, **KW)
    gens = [hello(h, url) for h in range(13) for url in (range(6) if h % 5 == 0 else [h % 6])]
    gens += [hello(h, h % 6) for h in range(16)]
    c.traces("Tracker", consts(1, 3), "tracker", cfg(1, 3), gens, props=PROPS, confirm=3)
    traces(c, 4 if c.quick else 40, 60, 0.5)
