"""C19: trajectory tracker stops."""
from checks import tracker_gen as g
NOTE = ("The control step (local goal, nearest piece, remaining distance, modes, stop/goal/far conditions, progress) is specified in integer geometry "
        "with set-valued progress; every output of the unmodified node under random histories and simulated drives must be an allowed outcome.")
CFG = ["trajectory_tracker/cfg/TrajectoryTracker.cfg"]
CONSTS = {"Paths": "{}", "Places": "{}", "SearchRange": "0"}


def build(c):
    return c.node("trajectory_tracker", "tracker_driver.cpp", "trajectory_tracker/src/trajectory_tracker.cpp", cfg=CFG)


MC_PATHS = ("{<<<<0,0,0,0>>,<<20,0,0,0>>,<<40,0,0,0>>,<<20,0,0,0>>,<<0,20,12,0>>>>, <<<<0,0,0,0>>,<<20,0,0,0>>,<<20,0,4,0>>,<<20,30,4,0>>,<<20,10,4,0>>,<<20,40,4,0>>>>, "
            "<<<<0,0,0,0>>,<<-30,0,0,0>>,<<0,0,0,0>>,<<0,30,4,0>>,<<0,0,4,0>>,<<30,0,0,0>>>>, <<<<10,10,2,0>>>>, <<<<0,0,0,0>>,<<0,0,8,0>>>>, <<<<0,0,0,0>>,<<30,0,0,0>>,<<60,0,0,0>>>>}")


def run(c):
    c.mc("TrackerModel", "SPECIFICATION MSpec\nINVARIANTS Total Kept GoalReal FarStops\nPROPERTY Forward\n",
         {"Paths": MC_PATHS, "Places": c.pick("{<<10 * i, 10 * j>> : i \\in -3..6, j \\in -2..4}", "{<<5 * i, 5 * j>> : i \\in -9..15, j \\in -8..12}"), "SearchRange": "0", "TolDist": "200", "StopDist": "100"},
         min_states=100, timeout=1500, workers=8)
    exe = build(c)
    c.run_scripts(exe, [sum((g.open_loop(c.rng) for _ in range(5)), []) for _ in range(c.pick(16, 160))], "TrackerTrace", CONSTS, name="tracker_open")
    c.run_scripts(exe, [g.closed_loop(c.rng, 25) for _ in range(c.pick(16, 120))], "TrackerTrace", CONSTS, name="tracker_drive")
