"""C14: lookups return the node or the K closest live ones (spec/RTable.tla)."""
import engine
from rtable_common import traces

OPS = {"find"}


def check(c):
    p = engine.Proj(ops=OPS)
    c.graph("RTable", "RTable.cfg", "rtable", dict(w=3, g=4, tick=900), 60, p)
    if not c.quick:
        c.graph("RTable", "RTableAges.cfg", "rtable", dict(w=3, g=4, tick=450), 900, p)
    traces(c, OPS, w=8, runs=6 if c.quick else 60, length=150, find=0.5)
    traces(c, OPS, w=5, runs=4 if c.quick else 40, length=150, find=0.5, advance=0.08)
    # ids that differ at any of the 160 bits: every model bit stands for 15 equal ones
    traces(c, OPS, w=10, runs=2 if c.quick else 30, length=80, stretch=15, find=0.5, refresh=0)
