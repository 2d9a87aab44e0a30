"""C19: answers to DHT queries (spec/Dht.tla)."""
from dht_common import cfg, crowd_traces, storm_traces, traces, KW


def check(c):
    c.graph("Dht", "DhtServe.cfg", "dht", cfg(3, True, [1], 1), 30 if c.quick else 300, **KW)
    traces(c, 6 if c.quick else 60, 80, dict(ask=12, tell=2, wrong=0.5, bytes=0.5))
    crowd_traces(c, 1 if c.quick else 4, 190)
    storm_traces(c, 2 if c.quick else 10)
