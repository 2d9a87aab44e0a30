"""C15: refresh targets (spec/RTable.tla) and timers that traffic cannot postpone (spec/Timer.tla)."""
import engine
from rtable_common import traces

OPS = {"refresh"}


def timer_history(rng, length):
    for _ in range(length):
        yield dict(op="wait" if rng.random() < 0.8 else "idle", d=rng.choice([1, 1, 2, 3, 5, 9, 14]))


def check(c):
    p = engine.Proj(ops=OPS)
    c.graph("Timer", "Timer.cfg", "timer", {}, 60)
    c.traces("Timer", dict(Growth="<- GrowthDef", Waits="{1}"), "timer", {},
             [timer_history(c.rng, 60) for _ in range(20)])
    c.graph("RTable", "RTable.cfg", "rtable", dict(w=3, g=4, tick=900), 60, p)
    if not c.quick:
        c.graph("RTable", "RTableAges.cfg", "rtable", dict(w=3, g=4, tick=450), 900, p)
    traces(c, OPS, w=8, runs=4 if c.quick else 60, length=120, find=0.02, refresh=0.4, advance=0.06)
