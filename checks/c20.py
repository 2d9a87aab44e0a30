"""C20: datagrams of any content (spec/Dht.tla)."""
from dht_common import cfg, traces, KW


def check(c):
    c.graph("Dht", "DhtBytes.cfg", "dht", cfg(2, False, [1], 1), 60 if c.quick else 600, **KW)
    traces(c, 8 if c.quick else 80, 120, dict(bytes=25, answer=3, ask=1, wrong=0.5))
