"""C20: velocity/acceleration limits."""
import vlib
NOTE = ("Limiter rule checked exhaustively on a bounded model; the code is bound by trace validation (exact binary fractions) of random "
        "command histories and of the angle helpers; trusts TLC and the driver. The tracker node is driven too and its commands and reported progress must follow the specified control step.")
INC = [vlib.REPO + "/trajectory_tracker/include"]


def run(c):
    c.mc("SpeedLimit", "SPECIFICATION Spec\nINVARIANTS StepKept Capped ClipOK\n",
         {"Vels": "-6..6", "Limits": "0..5", "StepMax": "4"}, name="SpeedLimit bounded", min_states=50)
    rng = c.rng
    exe = c.compile("speed", ["speed_driver.cpp"], INC, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    scripts = []
    for _ in range(c.pick(8, 60)):
        ls = []
        for _ in range(30):
            ls.append("begin")
            vmax, acc, dt = rng.randint(0, 200), rng.randint(0, 6), rng.randint(1, 9)
            for _ in range(60):
                k = rng.random()
                if k < 0.05:
                    vmax = rng.choice([0, 1, 20, 64, 200, rng.randint(0, 300)])
                if k < 0.08:
                    acc, dt = rng.choice([0, 1, 2, 5, 100]), rng.randint(0, 9)
                m = rng.choice([5, 60, 300, 3000])
                if k > 0.98:
                    ls.append("clear")
                elif k > 0.97:
                    ls.append("nonfinite")
                else:
                    ls.append("%s %d %d %d %d" % (rng.choice(["set", "set", "inc"]), rng.choice([rng.randint(-m, m), 0, vmax, -vmax, vmax + 1]), vmax, acc, dt))
            for _ in range(10):
                m = rng.randint(0, 50)
                ls.append("clip %d %d" % (rng.choice([m, -m, m + 1, -m - 1, 0, rng.randint(-99, 99)]), m))
            for _ in range(15):
                ls.append("angle %d" % (rng.choice([rng.randint(-9000000, 9000000), rng.randint(-7, 7) * 314159 + rng.randint(-3, 3), rng.randint(-320000, 320000), rng.randint(-700000, 700000)])))
            for _ in range(5):
                ls.append("topt %d %d" % (rng.randint(-60, 60), rng.randint(0, 40)))
        scripts.append(ls)
    c.run_scripts(exe, scripts, "SpeedLimitTrace", {"Vels": "{}", "Limits": "{}", "StepMax": "0"})
    c.assumptions.append("non-negative limits and periods; a non-finite request stops at once")
    from checks import c19, tracker_gen
    node = c19.build(c)
    drives = []
    for _ in range(c.pick(16, 120)):
        kinds = rng.choice([("curve",), ("curve", "rev"), ("curve", "rev", "turn")])
        drives.append(tracker_gen.closed_loop(rng, 8, kinds, {"limit_vel_by_avel": rng.choice([0, 1, 1]), "max_angvel": rng.choice([100, 200, 300, 1000]), "max_vel": rng.choice([300, 1000]),
                                                              "max_acc": rng.choice([300, 500, 1000]), "max_angacc": rng.choice([300, 2000]), "use_time_optimal_control": rng.choice([0, 1])}, goal=False))
    c.run_scripts(node, drives, "TrackerTrace", c19.CONSTS, name="tracker_limits")
