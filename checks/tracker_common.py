"""Shared by the tracker checks C22 and C23 (spec/Tracker.tla)."""
from dht_common import enc

KW = dict(confirm=3, slow_env={"CONF_SLOW": "1"}, max_path=60)
PROPS = ["StartedFirst", "OneStop", "NothingAfter", "Told", "PoolGrows", "LatestId", "Apart"]


def cfg(n, pieces, refuse=()):
    return dict(n=n, pieces=pieces, refuse=list(refuse))


def consts(n, pieces, refuse=()):
    return dict(N=n, Pieces=pieces, Refusing="<- " + ("SecondTracker" if refuse else "NoTrackers"), Style='"any"')


def response(rng):
    if rng.random() < 0.1:
        return {b"failure reason": b"no"}
    r = {b"interval": rng.choice([1, 2, 5, 30, 64, 128, 200, 10 ** 12])}
    peer = lambda: bytes([10, rng.randrange(3), 0, rng.randrange(256), rng.randrange(256), rng.randrange(256)])
    ps = [peer() for _ in range(rng.choice([0, 1, 1, 2, 5, 30]))]
    if rng.random() < 0.3:
        r[b"peers"] = [{b"ip": b"%d.%d.%d.%d" % tuple(p[:4]), b"port": p[4] * 256 + p[5], b"peer id": bytes(20)} for p in ps]
    else:
        r[b"peers"] = b"".join(ps)
    if rng.random() < 0.3:
        r[b"tracker id"] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 8])))
    for k, v in ((b"complete", 5), (b"incomplete", 2), (b"min interval", 3), (b"warning message", b"hm"), (b"peers6", bytes(18)), (b"external ip", bytes(4))):
        if rng.random() < 0.3:
            r[k] = v
    return r


def history(rng, n, pieces, length, spoil):
    """Trackers that answer well, badly, late or never, while the download goes on."""
    open_, mute, d, stopped = set(), set(), 0, False
    dead = {k for k in range(1, n + 1) if rng.random() < 0.15}
    slow = rng.choice([0.2, 0.5, 0.8])

    def do(i):
        o = yield i
        if isinstance(o, dict) and isinstance(o.get("open"), list):
            open_.clear()
            open_.update(k for k in range(1, n + 1) if o["open"][k - 1])
            mute.intersection_update(open_)
            for k in range(1, n + 1):
                if o["sent"][k - 1]:
                    mute.discard(k)

    yield from do(dict(op="go", h=rng.randrange(13), url=rng.randrange(6)))
    for _ in range(length):
        x = rng.random()
        can = sorted(open_ - mute - dead)
        if x < 0.05 and d < pieces and not stopped:
            d += 1
            yield from do(dict(op="piece"))
        elif x < 0.08 and not stopped:
            yield from do(dict(op="complete"))
        elif x < 0.09 and not stopped:
            stopped = True
            yield from do(dict(op="stop"))
        elif can and rng.random() > slow:
            k = rng.choice(can)
            b = bytearray(enc(response(rng)))
            if rng.random() < spoil:
                for _ in range(rng.choice([1, 1, 2, 5])):
                    at = rng.randrange(len(b) + 1)
                    if rng.random() < 0.5 and at < len(b):
                        b[at] = rng.choice([rng.randrange(256), *b"019deil:"])
                    elif rng.random() < 0.5:
                        b[at:at] = rng.choice([b"e", b"l", b"i7e", b"1:a", b"0:", b"le"])
                    elif len(b) > 20:
                        del b[at:at + rng.choice([1, 2, 6])]
            how = rng.choice(["full"] * 8 + ["chunked", "close", "cut", "none", "half"])
            if how == "half":
                mute.add(k)
            yield from do(dict(op="ans", t=k, how=how, bytes=list(b)))
        else:
            yield from do(dict(op="adv", n=rng.choice([1, 1, 2, 5, 27, 30, 63, 64, 65, 127, 128, 129, rng.randrange(1, 200)])))


def traces(c, runs, length, spoil):
    for n, pieces, refuse in [(1, 3, ()), (3, 2, ()), (2, 5, (2,)), (1, 1, ())]:
        gens = [history(c.rng, n, pieces, length, spoil) for _ in range(runs)]
        c.traces("Tracker", consts(n, pieces, refuse), "tracker", cfg(n, pieces, refuse), gens, props=PROPS, confirm=3)
