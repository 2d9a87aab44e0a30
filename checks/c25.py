"""C25: piece bitmaps (spec/Bitmap.tla)."""


def large(rng, n, length):
    """More pieces than a 16-bit (or 8-bit) index reaches, only a few of them marked."""
    yield dict(op="new", len=n)
    near = [0, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, n - 1]
    for _ in range(length):
        if rng.random() < 0.1:
            d = [0] * ((n + 7) // 8)
            for _ in range(3):
                d[rng.randrange(len(d))] = 1 << rng.randrange(8)
            d[-1] |= rng.randrange(256)
            yield dict(op="replace", data=d)
        else:
            p = rng.choice(near) if rng.random() < 0.7 else rng.randrange(n)
            yield dict(op="change", p=min(p, n - 1), v=rng.random() < 0.6)


def history(rng, length):
    n = rng.choice([0, 1, 5, 7, 8, 9, 15, 16, 17, 31, 64, 65, rng.randrange(100, 300)])
    yield dict(op="new", len=n)
    size = (n + 7) // 8
    for _ in range(length):
        if rng.random() < 0.25 or n == 0:
            k = size if rng.random() < 0.7 else max(0, size + rng.choice([-1, 1, 2, -size]))
            yield dict(op="replace", data=[rng.choice([0, 255, rng.randrange(256)]) for _ in range(k)])
        else:
            p = rng.randrange(n) if rng.random() < 0.5 else rng.choice([0, n - 1, n // 2, (n - 1) // 8 * 8])
            yield dict(op="change", p=p, v=rng.random() < 0.6)


def check(c):
    c.graph("Bitmap", "Bitmap.cfg", "bitmap", {}, 120)
    c.traces("Bitmap", dict(Lens="{0}", Bytes="{0}", MaxBytes=0), "bitmap", {},
             [history(c.rng, 40) for _ in range(60 if c.quick else 1500)], props=["OnlyThatPiece", "RefusedChangesNothing"])
    c.traces("Bitmap", dict(Lens="{0}", Bytes="{0}", MaxBytes=0), "bitmap", {},
             [large(c.rng, n, 14) for n in ((257, 65541) if c.quick else (257, 32770, 65536, 65541, 131073) * 10)],
             props=["OnlyThatPiece", "RefusedChangesNothing"])
