"""C08: incremental distance map equals a full recomputation."""
import vlib
from checks.c06 import INC, SRC
NOTE = ("The incremental algorithm is model-checked to keep every mattering distance right over all histories on small maps; every table of the "
        "real distance map along random histories of changes is decided cell by cell against the specification. Exact up to half a cell, by which "
        "the goal is rounded.")
CONSTS = {"J": "4", "Over": "0", "Wd": "1", "Ht": "1", "Vals": "{0}", "Goals": "{<<0,0>>}", "Starts": "{<<0,0>>}", "ReseedR": "4", "ExpandR": "4",
          "EightConn": "TRUE", "AllSeeds": "TRUE", "Maps": "{}", "MaxOps": "0"}
RING = "{<<<<0,100,100,100,0>>, <<0,100,100,100,0>>, <<0,100,100,100,0>>, <<0,100,100,100,0>>, <<0,0,0,0,0>>>>}"


def run(c):
    q = c.pick([dict(J="2", Wd="4", Ht="2", Vals="{0,100}", Goals="{<<0,0>>,<<1,1>>}", Starts="{<<3,0>>,<<2,1>>}", MaxOps="1", Over="5000"),
                dict(J="2", Wd="5", Ht="1", Vals="{0,60,100}", Goals="{<<0,0>>,<<2,0>>}", Starts="{<<1,0>>,<<4,0>>}", MaxOps="1", Over="5000"),
                dict(J="1", Wd="5", Ht="5", Vals="{0,60}", Goals="{<<2,4>>}", Starts="{<<0,0>>}", MaxOps="1", Over="30000", Maps=RING)],
               [dict(J="2", Wd="4", Ht="2", Vals="{0,100}", Goals="{<<0,0>>,<<1,1>>,<<1,0>>}", Starts="{<<3,0>>,<<3,1>>,<<2,1>>}", MaxOps="2", Over="5000"),
                dict(J="2", Wd="7", Ht="1", Vals="{0,60,100}", Goals="{<<0,0>>,<<2,0>>}", Starts="{<<1,0>>,<<4,0>>,<<5,0>>}", MaxOps="2", Over="5000"),
                dict(J="2", Wd="3", Ht="3", Vals="{0,100}", Goals="{<<0,0>>,<<1,1>>}", Starts="{<<2,2>>,<<2,0>>}", MaxOps="2", Over="12000"),
                dict(J="2", Wd="6", Ht="5", Vals="{0,60}", Goals="{<<2,4>>}", Starts="{<<0,0>>,<<5,1>>}", MaxOps="1", Over="30000",
                     Maps=RING.replace("100,100,100", "100,100,100,100").replace("0,0,0,0,0", "0,0,0,0,0,0"))])
    for k in q:
        k = dict(dict(Maps="{}", AllSeeds="TRUE"), **k)
        k = dict(k, ReseedR=k["J"], ExpandR=k["J"], EightConn="TRUE")
        c.mc("DistanceMap", "SPECIFICATION Spec\nINVARIANTS Right GoalZero SameAsNew\n", k, name="DistanceMap %sx%s" % (k["Wd"], k["Ht"]),
             min_states=40, workers=8, timeout=3000)
    exe = c.compile("distmap", ["distmap_driver.cpp"] + SRC + [vlib.REPO + "/planner_cspace/src/" + f for f in
                    ("grid_astar_model_3dof.cpp", "distance_map.cpp", "costmap_bbf.cpp")], INC,
                    flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], libs=["-lboost_chrono", "-lboost_system", "-lboost_thread"])
    rng = c.rng
    scripts = []
    for i in range(c.pick(20, 240)):
        ls = []
        for _ in range(c.pick(7, 16)):
            big = rng.random() < .3
            w, h = (rng.randint(10, 22), rng.randint(4, 12)) if big else (rng.randint(3, 14), rng.randint(1, 9))
            ls.append("begin %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
                w, h, rng.choice([10000, 33333 // 10, 5000]), rng.choice([1000, 50, 100, 250]), rng.choice([0, 0, 10, 50, 300]), rng.choice([0, 10, 100]),
                rng.randint(1, 3), rng.randint(0, 3), rng.randint(0, 4), rng.choice([1, 1, 2, 8, 64]), rng.choice([0, 5, 15, 30, 45]),
                rng.randint(0, 1), rng.randint(1, 10**8)))
            ls += ["walls %d" % rng.randint(0, 4), "create"]
            for k in range(rng.randint(2, 7)):
                r = rng.random()
                if r < .04:
                    ls += ["again %d %d" % (rng.randint(2, 12), rng.randint(2, 9)), "walls 2", rng.choice(["create", "update 2 2"])]
                elif r < .08:
                    ls.append("outside")
                else:
                    ls.append("update %d %d" % (rng.choice([-1, 0, 0, 1, 2, 5]), rng.choice([0, 0, 0, 1, 1, 2, 3, 3])))
        for _ in range(2):
            ls += ["begin %d %d 10000 1000 %d 0 1 %d %d 1 0 0 %d" % (rng.randint(9, 15), rng.randint(9, 13), rng.choice([0, 10, 50]), rng.choice([1, 20]), rng.choice([0, 30]), rng.randint(1, 10**8)), "ring"]
        scripts.append(ls)
    c.run_scripts(exe, scripts, "DistanceMapTrace", CONSTS, tlc_timeout=3000, timeout=300)
    c.assumptions.append("costs are 0..100 and weights non-negative; the changed rectangle passed to update covers every changed cell")
