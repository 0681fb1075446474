"""C06: cached motions describe the true swept footprint."""
import math
import vlib
NOTE = ("Motion geometry written in fixed point in TLA+ (connectedness, reach and heading invariants checked for every motion of a bounded "
        "range); every page of the code for the sampled configurations is compared with it cell by cell; trusts TLC and the driver.")
INC = [vlib.VERIF + "/rosstub/include", vlib.REPO + "/planner_cspace/include"]
SRC = [vlib.REPO + "/planner_cspace/src/" + f for f in ("motion_cache.cpp", "rotation_cache.cpp", "motion_primitive_builder.cpp")]
CONSTS = {"MN": "4", "MRange": "1", "MEr": "1"}
INVS = "SPECIFICATION Spec\nINVARIANTS StartsHere Connected InReach HeadingOK\n"


def build(c):
    return c.compile("motion", ["motion_driver.cpp"] + SRC, INC, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
                     libs=["-lboost_chrono", "-lboost_system"])


def configs(c, rng):
    """(N, range, er10, ir10, res_mm, rmin, aspect)"""
    fixed = [(16, 4, 1, 5, 100, 1000), (8, 5, 1, 5, 50, 100), (15, 3, 1, 2, 100, 100), (32, 3, 2, 5, 100, 2000), (7, 5, 5, 5, 40, 0), (4, 4, 1, 5, 100, 1000),
             (12, 4, 10, 5, 100, 1500), (64, 3, 5, 10, 100, 100)]
    if c.tier == "thorough":
        fixed += [(16, 8, 1, 5, 100, 1000), (16, 10, 2, 5, 50, 3000), (36, 5, 1, 5, 100, 100), (24, 7, 5, 5, 100, 1000), (9, 6, 1, 3, 70, 500), (48, 4, 1, 5, 100, 0),
                  (6, 6, 2, 5, 100, 100), (5, 7, 1, 5, 100, 100), (20, 6, 1, 5, 25, 4000)]
    out = []
    for n, r, er, ir, mm, rmin in fixed:
        asp = min(20000, int(100 * 2.0 / abs(math.tan(2 * math.pi / n)))) if abs(math.cos(2 * math.pi / n)) > 1e-6 else 0
        out.append((n, r, er, ir, mm, rmin, asp))
    return out


def run(c):
    for n, r, er in c.pick([(16, 3, 2), (8, 4, 5), (15, 3, 5), (12, 3, 5)], [(16, 5, 2), (8, 6, 1), (15, 4, 2), (12, 5, 5), (32, 3, 5), (5, 5, 2)]):
        c.mc("Motion", INVS, dict(CONSTS, MN=str(n), MRange=str(r), MEr=str(er)), name="Motion N=%d range=%d" % (n, r), min_states=50, workers=8, timeout=1500)
    rng = c.rng
    exe = build(c)
    scripts = []
    for cf in configs(c, rng):
        n, r = cf[0], cf[1]
        first = "begin " + " ".join(map(str, cf))
        heads = list(range(n))
        rng.shuffle(heads)
        per = c.pick(2, 4)
        for part in range(per):
            ls = []
            if rng.random() < 0.5:   # the caches are reset from another configuration
                ls.append("begin 8 2 1 5 100 100 200" if n != 8 else "begin 16 3 1 5 50 100 400")
            ls.append(first)
            stride = max(1, c.pick(1, 1) * (n * r * r) // c.pick(100, 200))
            for s in heads[part::per]:
                ls.append("motions %d 3 %d %d" % (s, stride, rng.randint(0, 1000)))
            for _ in range(c.pick(40, 200)):
                a, b = rng.randint(-r, r), rng.randint(-r, r)
                s, e = rng.randint(0, n - 1), rng.randint(0, n - 1)
                ls.append("rot %d %d %d %d" % (s, a, b, e))
                k = abs((e - s + n // 2) % n - n // 2)
                # arcs of less than a quarter turn, radius within the fixed-point range
                if (a, b) == (0, 0) or a * a + b * b > r * r or k == 0 or 4 * k < n:
                    ls.append("page %d %d %d %d" % (s, a, b, e))
            scripts.append(ls)
    c.run_scripts(exe, scripts, "MotionTrace", CONSTS, tlc_timeout=1500)
    c.assumptions.append("poses closer than 0.003 cells to a cell boundary may be recorded on either side; arcs beyond a quarter turn are never planned and not checked")
