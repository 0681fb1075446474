"""C30: simulated local map."""
NOTE = ("Window, clipping, wall ring and occlusion rays are specified in exact integer geometry and checked on the specification for all small widths; "
        "every map published by the unmodified node for random large maps, poses and configurations must equal the specified window.")


def episode(rng):
    per = rng.choice([100, 250, 500])
    w = rng.choice([4, 6, 7, 8, 9, 10, 12, 13])
    occ = rng.random() < .5
    ls = ["begin %d %d %d %d %d %d" % (rng.randint(0, 1), per, w, rng.random() < .4, occ, rng.random() < .4), "start", "wait 0.002"]
    res = rng.choice([4, 8, 16, 64])
    pos = [rng.randint(-6 * res, 14 * res), rng.randint(-6 * res, 14 * res)]

    def large():
        a, b = rng.randint(3, 16), rng.randint(3, 16)
        al = rng.random() < .5
        ox = rng.randint(-8, 3) * res + (0 if al else rng.randint(0, res - 1))
        oy = rng.randint(-8, 3) * res + (0 if al else rng.randint(0, res - 1))
        dens = rng.choice([.05, .1, .3])
        return "large %d %d %d %d %d %s" % (a, b, res, ox, oy, " ".join(str(100 if rng.random() < dens else rng.choice([-1, 0, 0, 0, 0, 50, 99])) for _ in range(a * b)))
    for k in range(rng.randint(4, 10)):
        r = rng.random()
        if k == 0 or r < .25:
            if rng.random() < .2:
                res = rng.choice([4, 8, 16, 64])
            ls.append(large())
        if k == 0 or r > .2:
            if rng.random() < .08:
                ls.append("robot none")
            else:
                pos = [pos[0] + rng.randint(-3 * res, 3 * res), pos[1] + rng.randint(-3 * res, 3 * res)]
                if rng.random() < .2:
                    pos = [p // res * res for p in pos]
                ls.append("robot %d %d %.2f" % (pos[0], pos[1], rng.choice([0, 1.5, 3])))
        ls.append("wait %.3f" % (per / 1000 * rng.choice([1, 1, 2])) if rng.random() < .8 else "wait %.3f" % (per * .25 // 5 * 5 / 1000))
    return ls


def run(c):
    c.mc("LocalWindow", "SPECIFICATION Spec\nINVARIANTS RayInside RayShort WallsClosed\n", {"Widths": c.pick("4..9", "4..14"), "Larges": "{}"}, min_states=5, workers=8, timeout=1500)
    exe = c.node("largemap_to_map", "largemap_driver.cpp", "costmap_cspace/src/largemap_to_map.cpp")
    c.run_scripts(exe, [sum((episode(c.rng) for _ in range(8)), []) for _ in range(c.pick(16, 200))], "LocalWindowTrace", {"Widths": "{}", "Larges": "{}"}, name="largemap_to_map")
