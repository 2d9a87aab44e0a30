"""C05: every peer message is delivered once, in order, to its consumer, however the stream is cut (spec/Wire.tla)."""
from engine import Proj
from wire_common import CFG, CONSTS, PROPS, history


def check(c):
    kw = dict(confirm=3, slow_env={"CONF_SLOW": "1"})
    c.graph("Wire", "WireProper.cfg" if c.quick else "WireProperPairs.cfg", "wire", CFG, 200 if c.quick else 2000, **kw)
    n = 25 if c.quick else 500
    c.traces("Wire", CONSTS, "wire", CFG, [history(c.rng, 40) for _ in range(n)], props=PROPS, confirm=3)
