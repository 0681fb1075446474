"""C16: the safety limiter never speeds up and brakes before obstacles."""
from checks import c15
NOTE = ("The factor's evolution is model-checked (never above one, held after a limitation); the prediction itself is specified as a stepwise sweep of the footprint with integer geometry, "
        "and the unmodified node's outputs for random footprints, obstacles, limits and commands must lie within the specified factor interval.")


def run(c):
    c15.mc(c, "limit")
    c15.replay(c, "limit", 24, 300)
    c.assumptions.append("obstacle points are at least 2.5 mm away from the footprint boundary at every predicted step; control period and step as configured")
