"""C04: remembered obstacle map."""
import vlib
NOTE = ("Design exhaustively checked on a small instance (all observations of 1-2 cell maps); the code is bound by trace validation of "
        "random observation histories (full dumps of belief and output); log-odds are quantised to ln(3)/4; trusts TLC and the driver.")
INC = [vlib.REPO + "/planner_cspace/include"]


def episode(rng, w, h, n):
    out = ["begin", "reset %d %d" % (w, h)]
    if rng.random() < 0.8:
        out += ["write", "costs"] if rng.random() < 0.5 else ["costs", "each"]
    dens = rng.choice([0.1, 0.4, 0.8])
    for _ in range(n):
        k = rng.choice("remember remember remember remember remember write write costs each clear reset".split())
        if k == "remember":
            m = rng.choice(["in", "in", "edge", "out", "far"])
            if m == "in":
                c = (rng.randrange(w), rng.randrange(h))
            elif m == "edge":
                c = (rng.choice([0, w - 1]), rng.choice([0, h - 1]))
            elif m == "out":
                c = (rng.randint(-4, w + 3), rng.randint(-4, h + 3))
            else:
                c = (rng.choice([-15, w + 15]), rng.randint(-9, h + 9))
            rmax = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 9])
            rmin = rng.choice([0, 0, 0, 1, 1, 2, 3, rmax, rmax + 1])
            obs = [100 if rng.random() < dens else rng.choice([-1, -1, 0, 0, 1, 50, 99, 99]) for _ in range(w * h)]
            out.append("remember %d %d %d %d %d %d %d %s" % (c[0], c[1], rng.randrange(2), rng.choice([0, 1, 2, 3, 5, 9, 20]),
                                                            -rng.choice([0, 1, 2, 4, 7, 16, 30]), rmin, rmax, " ".join(map(str, obs))))
        elif k in ("write", "costs", "each"):
            out.append(k)
        elif k == "clear" and rng.random() < 0.3:
            out.append("clear")
        elif k == "reset" and rng.random() < 0.2:
            w, h = rng.randint(1, 9), rng.randint(1, 9)
            out.append("reset %d %d" % (w, h))
    out += ["costs", "each", "write", "costs"]
    return out


def run(c):
    c.mc("RememberedMap", "SPECIFICATION Spec\nINVARIANTS Bounded Domains Monotone\nPROPERTY OutOnlyByWrite\n",
         {"Sizes": "{<<1,1>>, <<2,1>>}", "Costs": c.pick("{-1, 99, 100}", "{-1, 0, 99, 100}"), "Evidence": c.pick("{-6, 0, 6}", "{-6, 0, 4}"), "Ranges": "{0, 1}"},
         name="RememberedMap: 1-2 cells", min_states=200, workers=8)
    exe = c.compile("bbf", ["bbf_driver.cpp", vlib.REPO + "/planner_cspace/src/costmap_bbf.cpp"], INC,
                    flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    rng = c.rng
    scripts = [["begin", "noop"] + ["filter %d %d" % (f, e) for f in range(-8, 9) for e in range(-20, 21)]]
    for _ in range(c.pick(8, 60)):
        ls = []
        for _ in range(c.pick(20, 40)):
            ls += episode(rng, rng.randint(1, 10), rng.randint(1, 10), 18)
        scripts.append(ls)
    for _ in range(c.pick(2, 12)):
        scripts.append(episode(rng, rng.choice([31, 33, 40]), rng.choice([32, 65, 20]), 16))
    c.run_scripts(exe, scripts, "RememberedMapTrace", {"Sizes": "{}", "Costs": "{}", "Evidence": "{}", "Ranges": "{}"})
    c.assumptions.append("evidence factors are powers of 3^(1/4)")
