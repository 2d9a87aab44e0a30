"""C13: routing table admission, eviction and splitting (spec/RTable.tla)."""
import engine
from rtable_common import traces

OPS = {"touch", "advance"}


def check(c):
    p = engine.Proj(ops=OPS)
    c.graph("RTable", "RTable.cfg", "rtable", dict(w=3, g=4, tick=900), 60, p)
    if not c.quick:
        c.graph("RTable", "RTableAges.cfg", "rtable", dict(w=3, g=4, tick=450), 900, p)
    traces(c, OPS, w=8, runs=6 if c.quick else 60, length=200, find=0.02)
    traces(c, OPS, w=4, runs=4 if c.quick else 40, length=150, find=0.02, advance=0.1)
    # ids that differ at any of the 160 bits: every model bit stands for 15 equal ones
    traces(c, OPS, w=10, runs=2 if c.quick else 30, length=120, stretch=15, find=0.02, refresh=0)
