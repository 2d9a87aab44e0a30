"""C21: the search for peers (spec/Dht.tla)."""
from dht_common import cfg, traces, wide_traces, KW


def check(c):
    c.graph("Dht", "DhtSearch.cfg", "dht", cfg(3, False, [1], 0), 40 if c.quick else 900, **KW)
    traces(c, 4 if c.quick else 60, 100, dict(answer=14, wrong=0.3, ask=0.3, tell=0.3, bytes=0.1, adv=3))
    wide_traces(c, 1 if c.quick else 6, 120 if c.quick else 500)
