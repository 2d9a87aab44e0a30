"""C16: saving, loading and crashing (spec/RTable.tla)."""
import os, subprocess
import engine
from rtable_common import traces

OPS = {"save", "load", "damage", "crash"}


def shim():
    so = os.path.join(engine.OUT, "crash.so")
    src = os.path.join(engine.HARNESS, "shim", "crash.c")
    tmp = so + ".%d" % os.getpid()
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise engine.ToolError("crash shim: " + p.stderr)
    os.replace(tmp, so)
    return so


def check(c):
    p = engine.Proj(ops=OPS)
    env = dict(CRASH_SHIM=shim())
    c.graph("RTable", "RTableCrash.cfg", "rtable", dict(w=2, g=4, tick=900), 120, p, env=env, reps=1 if c.quick else 4)
    c.graph("RTable", "RTableDisk.cfg", "rtable", dict(w=2, g=4, tick=900), 60 if c.quick else 900, p)
    traces(c, OPS, w=8, runs=6 if c.quick else 80, length=120, find=0.05, advance=0.04, persist=True)
