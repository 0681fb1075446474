"""C07: 3D planner motions never cross lethal cells."""
import math
import vlib
from checks.c06 import INC, SRC
NOTE = ("Permission and cost of motions specified on the fixed-point motion geometry (model-checked on small maps with one pillar anywhere); "
        "every cost, motion list and search result of the real model recorded on random maps is decided by TLC; cells within 0.003 of a "
        "boundary are left open; motions are checked for feasibility within the local range (beyond it the planner also shifts sideways).")
CONSTS = {"MN": "4", "MRange": "1", "MEr": "1", "W": "3", "H": "3"}


def run(c):
    for n, r, er, w, h in c.pick([(8, 3, 2, 4, 3)], [(8, 4, 2, 6, 5), (16, 4, 2, 6, 6), (12, 3, 5, 5, 5)]):
        c.mc("CSpace", "SPECIFICATION CSpec\nINVARIANTS NeverLethal TurnBack RulesAgree\n",
             dict(CONSTS, MN=str(n), MRange=str(r), MEr=str(er), W=str(w), H=str(h)), name="CSpace N=%d range=%d %dx%d" % (n, r, w, h),
             min_states=50, workers=8, timeout=3000)
    exe = c.compile("cspace", ["cspace_driver.cpp"] + SRC + [vlib.REPO + "/planner_cspace/src/grid_astar_model_3dof.cpp"], INC,
                    flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], libs=["-lboost_chrono", "-lboost_system", "-lboost_thread"])
    rng = c.rng
    scripts = []
    cfgs = [(16, 4), (8, 4), (12, 5), (16, 5), (32, 3), (16, 6), (24, 4), (9, 4)]
    for i in range(c.pick(16, 80)):
        n, r = cfgs[i % len(cfgs)]
        ls = []
        for _ in range(c.pick(2, 4)):
            w, h = rng.randint(r + 2, 16), rng.randint(r + 2, 16)
            mm = rng.choice([50, 100, 100, 25])
            rmin = rng.choice([0, 1000, 1000, 2000, 3000])
            asp = min(20000, int(100 * 2.0 / abs(math.tan(2 * math.pi / n)))) if n != 4 else 0
            lethal, pillars = rng.choice([(0, rng.randint(1, 12)), (0, rng.randint(10, 30)), (40, 0), (15, 5), (120, 0)])
            lr = rng.choice([0, 3, 6, 30])
            ls.append("begin %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
                n, w, h, r, rng.choice([1, 2, 5]), rng.choice([5, 5, 10, 2]), mm, rmin, asp, rng.choice([1000, 3333, 10000, 17]),
                rng.choice([20, 500, 2617, 9000]), lr, rng.randint(1, 10**8), lethal, pillars, rng.randint(0, 1)))
            ls += ["cost 80 0", "cost 60 1", "turns 25", "estim 12", "grids 3", "search %d" % rng.choice([3, 5])]
            if rng.random() < .6:
                ls.append("params %d %d %d %d %d" % (rng.choice([1000, 5000]), rng.choice([50, 3000]), rng.choice([0, 1500, 4000]), rng.choice([0, 4, 40]), mm))
                ls += ["grids 3", "cost 40 0", "search 2", "estim 4"]
        scripts.append(ls)
    c.run_scripts(exe, scripts, "CSpaceTrace", CONSTS, tlc_timeout=3000, timeout=300)
    c.assumptions.append("poses closer than 0.003 cells to a cell boundary may be counted in either cell")
    c.assumptions.append("the turning weight of the estimate is positive (with zero weight an exact sideways shift has an undefined cost)")
