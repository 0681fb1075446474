"""C09: one outcome per goal, path ownership, status of the planner_3d node."""
from checks import planner3d_gen as g
NOTE = ("Exhaustive TLC model of the node (unbounded histories of maps, updates, poses, goals of three sources, cancels, escapes, cycles) for the outcome and path "
        "properties; every output of the unmodified node under random histories and schedules must be allowed by the same specification.")


def run(c):
    g.model(c, c.pick(1, 2), 0, 0, -1)
    g.model(c, c.pick(1, 2), 0, 1, 0)
    exe = g.build(c)
    g.episodes(c, exe, "goals", c.pick(24, 160))
    g.episodes(c, exe, "escape", c.pick(12, 96))
