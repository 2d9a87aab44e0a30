"""C24: shutdown notification and waiting (spec/Shutdown.tla)."""


def check(c):
    c.graph("Shutdown", "Shutdown.cfg" if c.quick else "ShutdownBig.cfg", "shutdown", dict(n=3 if c.quick else 4), 200)
    cl = lambda h, k: dict(op="clone_", h=h, k=k)
    dr = lambda h: dict(op="drop_", h=h)
    po = lambda h: dict(op="poll_", h=h)
    send, over = dict(op="send_"), dict(op="over_")
    scenarios = [
        ([cl(0, 1)], [[cl(0, 2), po(2), dr(2), po(0), dr(0)], [send, over, over], [po(1), po(1), dr(1)]]),
        ([cl(0, 1), cl(0, 2)], [[dr(0)], [cl(1, 3), dr(1), po(3), dr(3)], [send, over, dr(2), over]]),
        ([send], [[cl(0, 1), dr(0), dr(1), over], [over, over], [over]]),
        ([cl(0, 1), send], [[cl(0, 2), dr(0), po(2), dr(2)], [cl(1, 3), dr(1), po(3), dr(3)], [over, over, over]]),
    ]
    c.concurrent("Shutdown", dict(N=4), "shutdown", scenarios, 3000 if c.quick else 100000, cfg=dict(n=4))
