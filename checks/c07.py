"""C07: a session opens only after a correct handshake (spec/Wire.tla)."""
from wire_common import CFG, CONSTS, PROPS, history


def check(c):
    kw = dict(confirm=3, slow_env={"CONF_SLOW": "1"})
    c.graph("Wire", "WireShake.cfg" if c.quick else "WireShakePairs.cfg", "wire", CFG, 200 if c.quick else 2000, **kw)
