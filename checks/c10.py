"""C10: fail-safe behaviour of the planner_3d node."""
from checks import planner3d_gen as g
NOTE = ("The watchdog, map replacement and missing robot pose are part of the TLC-checked node model (stale data: only empty paths and the missing-data report; new map: "
        "path withdrawn); the real node is run under random losses and recoveries of costmap, map and pose and validated against the same specification.")


def run(c):
    g.model(c, c.pick(1, 2), 0, 0, -1)
    g.model(c, c.pick(1, 2), 1, 0, -1)
    exe = g.build(c)
    g.episodes(c, exe, "faults", c.pick(32, 240))
