"""C06: malformed, vanishing and closing peers (spec/Wire.tla)."""
from wire_common import CFG, CONSTS, PROPS, history


def check(c):
    kw = dict(confirm=3, slow_env={"CONF_SLOW": "1"})
    c.graph("Wire", "WireRough.cfg" if c.quick else "WireRoughPairs.cfg", "wire", CFG, 200 if c.quick else 2000, **kw)
    n = 40 if c.quick else 800
    c.traces("Wire", CONSTS, "wire", CFG, [history(c.rng, c.rng.randrange(8), bad=True) for _ in range(n)], props=PROPS, confirm=3)
