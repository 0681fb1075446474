"""C23: floor map selection."""
NOTE = ("The selection rule is model-checked with liveness (the output settles on the selected floor) over all short histories; the unmodified node is replayed with random arrays and selections "
        "and every published map and broadcast height is decided by the specification.")


def episode(rng):
    ls = ["begin %d" % rng.randint(0, 1), "start"]
    n = 0
    for _ in range(rng.randint(4, 16)):
        if rng.random() < .45:
            k = rng.choice([0, 1, 2, 3, 3])
            m = []
            for _ in range(k):
                n += 1
                m += [n, rng.randint(-3, 9)]
            ls.append("maps " + " ".join(map(str, m)))
        else:
            ls.append("floor %d" % rng.choice([0, 0, 1, 1, 2, 3, -1, 7]))
        r = rng.random()
        if r < .5:
            ls += ["wait 0.35", "idle"]
        elif r < .8:
            ls.append("wait %.2f" % rng.choice([.03, .1, .17]))
    return ls + ["wait 0.35", "idle"]


def run(c):
    a, b, d = "<<[id |-> 1, z |-> 0], [id |-> 2, z |-> 3]>>", "<<[id |-> 3, z |-> 5], [id |-> 4, z |-> 0], [id |-> 5, z |-> 3]>>", "<<>>"
    c.mc("SelectMap", "SPECIFICATION FairSpec\nPROPERTIES OutputIsSelected KeepsWhenOutOfRange\n",
         {"Arrays": "{%s, %s, %s}" % (a, b, d), "Floors": "-1..3", "MaxSteps": c.pick("4", "6")}, min_states=100, workers=8, name="SelectMap safety")
    c.mc("SelectMap", "SPECIFICATION FairSpec\nPROPERTY Settles\n",
         {"Arrays": "{%s, %s, %s}" % (a, b, d), "Floors": "-1..2", "MaxSteps": c.pick("3", "4")}, min_states=100, workers=8, name="SelectMap settles")
    exe = c.node("select_map", "select_driver.cpp", "map_organizer/src/select_map.cpp")
    c.run_scripts(exe, [sum((episode(c.rng) for _ in range(20)), []) for _ in range(c.pick(8, 100))], "SelectMapTrace", {"Arrays": "{}", "Floors": "{}", "MaxSteps": "1"}, name="select_map")
