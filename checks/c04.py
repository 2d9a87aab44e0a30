"""C04: loading torrent files (spec/Metainfo.tla over spec/Bencode.tla)."""
import engine


def enc(v):
    if isinstance(v, bytes):
        return b"%d:%s" % (len(v), v)
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, list):
        return b"l" + b"".join(map(enc, v)) + b"e"
    return b"d" + b"".join(enc(k) + enc(v[k]) for k in sorted(v)) + b"e"


WORDS = [b"a", b"b", b"dir", b"x.txt", b"...", b" ", b"\xc3\xa9", b"..b", b"a b", b"~"]
HOSTILE = [b"", b".", b"..", b"a/b", b"/etc", b"../..", b"a\0b", b"/", b"x/../..", b"./"]


def description(rng, hostile):
    def word():
        return rng.choice(HOSTILE) if rng.random() < hostile else rng.choice(WORDS)
    pl = rng.choice([1, 16384, 32768, 40000, 262144, rng.randrange(1, 100000), 1 << rng.randrange(60)])
    info = {b"name": word(), b"piece length": pl}
    if rng.random() < 0.4:
        total = rng.randrange(0, 6 * pl)
        info[b"length"] = total
    else:
        lens = [rng.choice([0, 1, pl, rng.randrange(2 * pl)]) for _ in range(rng.randrange(1, 6))]
        total = sum(lens)
        info[b"files"] = [{b"length": n, b"path": [word() for _ in range(rng.randrange(1, 5))]} for n in lens]
    for d in [info] + info.get(b"files", []):
        for k in (b"path", b"name", b"path.utf-8", b"name.utf-8", b"symlink path", b"publisher", b"root"):
            if k not in d and rng.random() < 0.1:
                d[k] = word() if k.startswith((b"n", b"r")) else [word(), word()]
    n = -(-total // pl)
    if rng.random() < 0.1:
        n = max(0, n + rng.choice([-1, 1]))
    info[b"pieces"] = bytes(rng.randrange(256) for _ in range(20 * n))
    for k in (b"private", b"md5sum", b"zzz", b"aaa"):
        if rng.random() < 0.2:
            info[k] = rng.choice([1, b"x", [b"q", [1]], {b"info": {b"name": b"m"}}])
    t = {b"info": info, b"announce": rng.choice([b"http://t", b"udp://t:1", b"wss://t"])}
    if rng.random() < 0.5:
        t[b"announce-list"] = [[rng.choice([b"http://a", b"udp://b", b"https://c", b"dht://d"]) for _ in range(rng.randrange(4))]
                               for _ in range(rng.randrange(4))]
    if rng.random() < 0.3:
        t[b"url-list"] = [b"http://w"]
    return t


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        k = rng.randrange(len(b))
        if r < 0.4:
            b[k] = rng.choice(b"ildes0123456789:-\xff\x00/")
        elif r < 0.6:
            del b[k]
        elif r < 0.8:
            b.insert(k, rng.choice(b"ilde0123456789:-"))
        elif r < 0.9:
            b = b[:max(1, k)]
        else:
            j = rng.randrange(len(b))
            b[min(j, k):min(j, k)] = b[min(j, k):max(j, k)][:60]
        if not b:
            break
    return bytes(b)


def history(rng, n, hostile, broken, places=False):
    for _ in range(n):
        b = enc(description(rng, hostile))
        if rng.random() < broken:
            b = mutate(rng, b)
        yield dict(op="place" if places and rng.random() < 0.5 else "load", b=list(b))


CONSTS = dict(Deviations=0, PathDepth=1, Focus='"names"')
PROPS = ["NeverEscapes", "Consistent", "Whole"]


def check(c):
    c.graph("Metainfo", "MetainfoPairs.cfg" if c.quick else "MetainfoDeep.cfg", "metainfo", {}, 120)
    for hostile, broken in ((0, 0), (0, 0.8)):
        c.traces("Metainfo", CONSTS, "metainfo", {},
                 [history(c.rng, 40, hostile, broken) for _ in range(10 if c.quick else 200)], props=PROPS)
