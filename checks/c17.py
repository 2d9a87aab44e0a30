"""C17: the DHT's queries and the answers to them (spec/Dht.tla)."""
from dht_common import cfg, traces, wide_traces, KW


def check(c):
    c.graph("Dht", "DhtMatch.cfg", "dht", cfg(2, False, [1], 1), 40 if c.quick else 200, **KW)
    if not c.quick:
        c.graph("Dht", "DhtMatchLong.cfg", "dht", cfg(2, False, [1], 1), 500, **KW)
    traces(c, 4 if c.quick else 30, 80, dict(wrong=8, spoil=2, answer=3, adv=3, bytes=0.2))
    wide_traces(c, 1 if c.quick else 4, 60 if c.quick else 300)
