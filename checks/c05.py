"""C05: two-joint planner."""
import vlib
NOTE = ("Transition rule checked exhaustively on a small torus; the code is bound by validating its costs, estimates, neighbour lists and "
        "search results on random grids against the TLA+ definition; exact half-way samples may round either way; trusts TLC and the driver.")
INC = [vlib.REPO + "/planner_cspace/include"]


def begin(rng, R, rnge):
    dens = rng.choice([0.0, 0.05, 0.15, 0.3, 0.5])
    g = [100 if rng.random() < dens else rng.choice([0, 0, 0, 1, 17, 50, 98, 99]) for _ in range(R * R)]
    return "begin %d %d %d %d %d %s" % (R, rng.choice([10, 5, 13]), rng.choice([15, 10, 7]), rng.choice([0, 40, 7]), rnge, " ".join(map(str, g)))


def run(c):
    c.mc("JointModel", "SPECIFICATION Spec\nINVARIANTS Clear Short\n", {"R": "3", "Range": c.pick("2", "3"), "W": "<<10, 15>>", "WC": "40"},
         name="JointModel R=3 torus, all lethal grids", min_states=1000, workers=8, timeout=800)
    exe = c.compile("joint", ["joint_driver.cpp", vlib.REPO + "/planner_cspace/src/grid_astar_model_2dof_joints.cpp"], INC,
                    flags=["-fsanitize=address", "-fno-sanitize-recover=undefined"], libs=["-lboost_chrono", "-lboost_system"])
    rng = c.rng
    scripts = []
    # every transition of a small grid
    for R in (3, 4, 5):
        ls = []
        for _ in range(c.pick(1, 4)):
            ls.append(begin(rng, R, 1))
            cells = [(x, y) for x in range(2 * R) for y in range(2 * R)]
            for a in rng.sample(cells, c.pick(8, len(cells))):
                ls += ["cost %d %d %d %d" % (a + b) for b in cells]
        scripts.append(ls)
    for _ in range(c.pick(8, 50)):
        ls = []
        for _ in range(c.pick(5, 10)):
            R = rng.choice([4, 5, 7, 8, 12, 16, 31])
            ls.append(begin(rng, R, rng.choice([1, 2, 3, 5])))
            for _ in range(120):
                a = (rng.randrange(2 * R), rng.randrange(2 * R))
                k = rng.random()
                if k < 0.5:
                    b = (a[0] + rng.randint(-5, 5), a[1] + rng.randint(-5, 5))
                elif k < 0.8:
                    b = (rng.randrange(2 * R), rng.randrange(2 * R))
                else:
                    b = (rng.choice([-1, 0, 2 * R - 1, 2 * R, R, R - 1]), rng.choice([-1, 0, 2 * R - 1, 2 * R, R]))
                ls.append("%s %d %d %d %d" % ((rng.choice(["cost", "cost", "cost", "cost", "est"]),) + a + b))
            ls.append("len %d %d" % (rng.randint(-9, 9), rng.randint(-9, 9)))
        scripts.append(ls)
    for _ in range(c.pick(5, 30)):
        ls = []
        for _ in range(c.pick(4, 8)):
            R = rng.choice([3, 4, 4, 5])
            ls.append(begin(rng, R, rng.choice([1, 1, 2])))
            for _ in range(4):
                ls.append("search %d %d %d %d" % tuple(rng.randrange(2 * R) for _ in range(4)))
        scripts.append(ls)
    c.run_scripts(exe, scripts, "JointModelTrace", {"R": "1", "Range": "1", "W": "<<1, 1>>", "WC": "1"})
    c.assumptions.append("cell costs 0..100; joint angles inside the two-turn grid")
