"""C11: working costmap of the planner_3d node."""
from checks import planner3d_gen as g
NOTE = ("The layering of base map and latest update is an invariant of the TLC-checked node model; every cell of the real node's working costmap is compared with the "
        "specification after random histories of maps and updates of all shapes (angle layers, overwriting, exceeding, wrapping coordinates).")


def run(c):
    for over in (0, 1):
        g.model(c, c.pick(0, 1), 0, 0, -1, over)
    g.model(c, 0, 1, 0, -1, 0)
    exe = g.build(c)
    g.episodes(c, exe, "cells", c.pick(40, 400))
