"""C22: sessions with HTTP trackers (spec/Tracker.tla)."""
from tracker_common import cfg, traces, KW


def check(c):
    c.graph("Tracker", "Tracker.cfg", "tracker", cfg(1, 2), 60 if c.quick else 300, **KW)
    c.graph("Tracker", "TrackerTwo.cfg", "tracker", cfg(2, 2), 30 if c.quick else 300, **KW)
    traces(c, 4 if c.quick else 40, 60, 0.02)
