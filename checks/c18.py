"""C18: peers announced to this node (spec/Dht.tla)."""
from dht_common import cfg, crowd_traces, traces, KW


def check(c):
    c.graph("Dht", "DhtServe.cfg", "dht", cfg(3, True, [1], 1), 30 if c.quick else 300, **KW)
    traces(c, 6 if c.quick else 60, 80, dict(tell=8, ask=8, wrong=0.5, bytes=0.5, adv=0.5))
    crowd_traces(c, 2 if c.quick else 6, 190 if c.quick else 900)
