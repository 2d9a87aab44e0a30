"""Shared by C05-C07: byte strings as runs, random streams of a remote peer."""

HASH = [[171, 1], [0, 9], [205, 9], [239, 1]]
OWN = [[45, 1], [7, 18], [9, 1]]
CFG = dict(hash=HASH, own=OWN, cap=1)
PROPS = ["OneReport", "ReportIsLast", "SilentWhenOver", "OnlyAfterHandshake"]
CONSTS = dict(Scripts="<- ShakeStreams", SendMsgs="<- NoMsgs", Closings="FALSE")


def runs(bs):
    out = []
    for b in bs:
        if out and out[-1][0] == b:
            out[-1][1] += 1
        else:
            out.append([b, 1])
    return out


def unruns(r):
    return bytes(b for b, n in r for _ in range(n))


SHAKE = b"\x13BitTorrent protocol" + bytes(8) + unruns(HASH) + b"R" * 20


def u32(n):
    return n.to_bytes(4, "big")


def message(rng, big=True):
    """A proper message as bytes."""
    k = rng.randrange(11)
    n = rng.choice([0, 1, 2, 255, 256, 65536, 2**32 - 1, rng.randrange(2**32)])
    if k == 10:
        return u32(0)
    if k <= 3:
        return u32(1) + bytes([k])
    if k == 4:
        return u32(5) + b"\4" + u32(n)
    if k in (5, 7):
        c = rng.randrange(4) if not big else rng.choice([0, 1, 3, 60, 1000, 16384, 16384, 16384])
        p = bytes([rng.randrange(256)]) * (c // 2) + bytes([rng.randrange(256)]) * (c - c // 2)
        b = bytes([k]) + (u32(n) + u32(rng.choice([0, 16384, 32768])) if k == 7 else b"") + p
        return u32(len(b)) + b
    if k in (6, 8):
        return u32(13) + bytes([k]) + u32(n) + u32(rng.choice([0, 16384])) + u32(rng.choice([1, 16384, 2**31]))
    return u32(3) + b"\x09" + rng.choice([b"\x1a\xe1", b"\0\1", b"\xff\xff"])


def unknown(rng):
    n = rng.choice([1, 2, 5, 9, 300])
    return u32(n) + bytes([rng.randrange(10, 256)]) + bytes([rng.choice([0, 1, 255])]) * (n - 1)


def odd(rng):
    """Something no message can start with."""
    r = rng.random()
    if r < 0.3:
        return rng.choice([u32(16509), u32(2**31), u32(2**32 - 1), u32(65536), u32(1 << 24)]) + bytes([rng.randrange(12)]) * rng.choice([1, 4, 17000])
    i = rng.randrange(10)
    fit = {0: 1, 1: 1, 2: 1, 3: 1, 4: 5, 6: 13, 8: 13, 9: 3}
    if i == 5:
        i = 4
    n = rng.randrange(1, 9) if i == 7 else rng.choice([x for x in (1, 2, 4, 5, 6, 12, 13, 14, 40) if x != fit[i]])
    return u32(n) + bytes([i]) + bytes([rng.randrange(4)]) * (n - 1)


def send_msg(rng):
    k = rng.randrange(11)
    v4 = lambda: [rng.choice([0, 1, 127, 128, 255]) for _ in range(4)]
    names = ["choke", "unchoke", "interested", "notinterested", "have", "bitfield", "request", "piece", "cancel", "port", "keepalive"]
    v = {4: v4(), 6: v4() + v4() + v4(), 8: v4() + v4() + v4(), 7: v4() + v4(), 9: v4()[:2]}.get(k, [])
    b = runs(bytes([rng.randrange(256)]) * rng.choice([0, 1, 5, 16384])) if k in (5, 7) else []
    return dict(op="send", m=dict(k=names[k], v=v, b=b))


def history(rng, length, bad=False, sends=True):
    """A remote that shakes hands and then sends messages cut at random places."""
    data = SHAKE
    for _ in range(length):
        r = rng.random()
        data += unknown(rng) if r < 0.08 else message(rng, big=rng.random() < 0.5)
    if bad:
        data += odd(rng) + message(rng) + message(rng)
    o = yield dict(op="start", refuse=False, src=0)
    pos = 0
    while True:
        r = rng.random()
        if sends and r < 0.15:
            o = yield send_msg(rng)
            continue
        n = rng.choice([1, 1, 2, 3, 4, 5, 7, 13, 17, 68, 100, 1460, 4096, 16384, 16512, 20000, 60000])
        last = pos + n >= len(data)
        fin = last and rng.random() < 0.7
        o = yield dict(op="feed", d=runs(data[pos:pos + n]), fin=fin)
        pos += n
        if isinstance(o, dict) and o.get("over"):
            if sends:
                yield send_msg(rng)
            yield dict(op="feed", d=runs(u32(1) + b"\2"), fin=False)
            return
        if last:
            if not fin:
                yield rng.choice([dict(op="rst"), dict(op="stop"), dict(send_msg(rng), op="rstsend")])
                yield send_msg(rng)
            return
