"""C27: filters."""
import vlib
NOTE = ("Filter recurrence and Kalman algebra checked exhaustively on exact bounded instances; the code is bound by trace validation of "
        "random input histories with rounding tolerances; trusts TLC and the driver.")
INC = [vlib.REPO + "/trajectory_tracker/include", vlib.REPO + "/track_odometry/include"]


def run(c):
    c.mc("Filters", "SPECIFICATION Spec\nINVARIANT Hull\nPROPERTIES Steady Closer HpDecay\n", {"Inputs": "{-5, 0, 1, 8}", "Depth": c.pick("5", "6")},
         name="low-pass/high-pass recurrence, exact", min_states=100, workers=8)
    rng = c.rng
    exe = c.compile("filter", ["filter_driver.cpp"], INC, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    scripts = []
    for _ in range(c.pick(8, 60)):
        ls = []
        for _ in range(c.pick(16, 30)):
            ls.append("begin")
            K = rng.choice([1, 1, 2, 3, 5, 7, 15, 20, 31, 40])
            ang = rng.random() < 0.4
            lpf = rng.random() < 0.7
            if not lpf:
                ang = False
                K = min(K, 40)
            lim = 200000 if ang else 50000
            ls.append("filter %d %d %d %d" % (K, lpf, ang, rng.randint(-lim, lim) if lpf else 0))
            v = rng.randint(-lim, lim)
            for _ in range(40):
                k = rng.random()
                if k < 0.25:
                    v = rng.randint(-lim, lim)
                elif k < 0.5:
                    v = max(-lim, min(lim, v + rng.randint(-lim // 50, lim // 50)))
                if k > 0.97 and lpf:
                    ls.append("fset %d" % rng.randint(-lim, lim))
                elif k > 0.94 and lpf:
                    ls.append("fsetout")
                else:
                    ls.append("fin %d" % v)
        for _ in range(100):
            s, r = rng.choice([(rng.randint(0, 40), rng.randint(0, 40)), (rng.randint(1, 40), 0), (0, rng.randint(1, 40)), (5, 5)])
            if s + r:
                ls.append("kstep %d %d %d %d" % (rng.randint(-400, 400), s, rng.randint(-400, 400), r))
        for _ in range(10):
            ls.append("kset %d %d" % (rng.choice([0, 0, rng.randint(-9000, 9000)]), rng.choice([-1, -1, 0, 500, 20000])))
            zero = ls[-1].endswith(" 0")
            for _ in range(20):
                if rng.random() < 0.5:
                    sp = rng.choice([0, 1, 300, 5000])
                    zero = zero and sp == 0
                    ls.append("kpred %d %d" % (rng.randint(-900, 900), sp))
                else:
                    r = rng.choice([-1, 0, 1, 200, 200, 9000])
                    if r == 0 and zero:      # two exact and contradictory sources: outside the contract
                        r = 7
                    ls.append("kmeas %d %d" % (rng.randint(-9000, 9000), r))
                    zero = zero or r == 0
        for _ in range(4):
            ls.append("mean0")
            ls += ["mean %d" % rng.randint(-2000, 2000) for _ in range(rng.choice([1, 5, 60]))]
        scripts.append(ls)
    c.run_scripts(exe, scripts, "FiltersTrace", {"Inputs": "{}", "Depth": "0"})
    c.assumptions += ["time constants of at least half a sample", "an exact measurement of an exactly known state is outside the contract"]
