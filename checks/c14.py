"""C14: the update stream reconstructs the costmap."""
from checks import costmap_gen
NOTE = ("Template geometry (footprint expansion, linear spread) specified in TLA+ with an explicit tolerance of 1/40 cell; templates learned from the running node and every "
        "published costmap are decided cell by cell.")


def run(c):
    costmap_gen.run(c, "C14", 0)
