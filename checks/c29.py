"""C29: patrol."""
NOTE = ("The patrol rule is model-checked over all interleavings of short paths and action outcomes; the unmodified node is replayed against a scripted action server "
        "(late, repeated and foreign results, paths replaced at every point) and each goal and cancel message is decided by the specification.")


def episode(rng):
    ls = ["begin %d %d" % (rng.randint(0, 1), rng.randint(0, 1)), "start"]
    n = 0
    for _ in range(rng.randint(5, 25)):
        r = rng.random()
        if r < .2 or n == 0:
            ls.append("path " + " ".join(str(rng.randint(1, 9)) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))))
            n += 1
            if rng.random() < .1:
                ls.append("path " + " ".join(str(rng.randint(1, 9)) for _ in range(rng.choice([0, 1, 2, 3]))))
        elif r < .8:
            ls.append("result %d %d" % (rng.choice([3, 3, 3, 4, 4, 2, 1, 5, 8]), rng.choice([0, 0, 0, 0, 1, 2])))
        elif r < .9:
            ls += ["wait 1.05", "idle"]
        if rng.random() < .75:
            ls.append("wait %.2f" % rng.choice([.01, .05, .09, .13, .25, .25, .5]))
    return ls + ["wait 1.05", "idle"]


def run(c):
    c.mc("Patrol", "SPECIFICATION Spec\nINVARIANTS InOrder OneAtATime\nPROPERTIES OnlyAfterOutcome StaleNeverSends\n",
         {"Paths": "{<<>>, <<1>>, <<1, 2>>, <<2, 2, 1>>}", "MaxPaths": c.pick("4", "7")}, min_states=100, workers=8)
    exe = c.node("patrol", "patrol_driver.cpp", "planner_cspace/src/patrol.cpp")
    c.run_scripts(exe, [sum((episode(c.rng) for _ in range(12)), []) for _ in range(c.pick(16, 200))], "PatrolTrace", {"Paths": "{}", "MaxPaths": "1"}, name="patrol")
