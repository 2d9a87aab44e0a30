"""C03: names and paths in torrent files (spec/Metainfo.tla)."""
import engine
from c04 import history, CONSTS, PROPS


def check(c):
    for cfg in ("Metainfo", "MetainfoPaths") if c.quick else ("MetainfoNames2", "MetainfoDeepNames"):
        c.graph("Metainfo", cfg + ".cfg", "metainfo", {}, 120 if c.quick else 400,
                proj=engine.Proj(fields=["res", "name", "paths", "files", "stray"]))
    for hostile in (0, 0.15, 0.6):
        c.traces("Metainfo", CONSTS, "metainfo", {},
                 [history(c.rng, 40, hostile, 0, True) for _ in range(8 if c.quick else 150)], props=PROPS,
                 match="out'.res = o.res /\\ (o.op = \"place\" => out' = o) /\\ (o.op = \"load\" /\\ o.res = \"ok\" => out'.name = o.name /\\ out'.paths = o.paths)")
