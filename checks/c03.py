"""C03: cyclic vectors."""
import vlib
NOTE = ("Reductions proven unique/congruent on a bounded model by TLC; the code is bound by trace validation of exhaustive small "
        "reductions and random register programs over five instantiations; trusts TLC and the driver.")
INC = [vlib.REPO + "/planner_cspace/include"]
DIMS = {"32": (3, 2), "20": (2, 0), "22": (2, 2), "31": (3, 1), "43": (4, 3)}


def run(c):
    c.mc("CyclicVec", "SPECIFICATION Spec\nINVARIANT Inverse\nPROPERTY PlaneKept\n", {"Lim": "3", "MaxRes": "5"}, name="CyclicVec", min_states=100)
    exe = c.compile("cv", ["cyclicvec_driver.cpp"], INC, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    rng = c.rng
    scripts = []
    # every small value x resolution, both reductions, both call forms
    ls = []
    for k, (dim, nc) in DIMS.items():
        if dim == nc:
            continue
        ls.append("begin " + k)
        for res in list(range(1, c.pick(10, 17))):
            for v in range(-2 * res - 2, 2 * res + 3):
                for op in ("cycle", "cycleu"):
                    ls.append("set 0 " + " ".join(str(v + 0 * i) for i in range(dim)))
                    ls.append("%s 0 %d %s" % (op, (v + res) & 1, " ".join([str(res)] * dim)))
    scripts.append(ls)
    for _ in range(c.pick(7, 40)):
        ls = []
        for k, (dim, nc) in DIMS.items():
            ls.append("begin " + k)
            def vec(m=None):
                m = m or rng.choice([3, 20, 300, 5000])
                return " ".join(str(rng.randint(-m, m)) for _ in range(dim))
            for r in range(4):
                ls.append("set %d %s" % (r, vec()))
            for _ in range(60):
                x = rng.choice("set set add sub sub mul cycle cycleu cycleu exceed exceed eq eq len prod conv line line rot90 rot".split())
                r, a, b = rng.randrange(4), rng.randrange(4), rng.randrange(4)
                if x == "set":
                    ls.append("set %d %s" % (r, vec()))
                elif x in ("add", "sub"):
                    ls.append("%s %d %d %d" % (x, r, a, b))
                    if rng.random() < 0.3:
                        ls.append("set %d %s" % (r, vec()))
                elif x == "mul":
                    ls.append("set %d %s" % (a, vec(100)))
                    ls.append("set %d %s" % (b, vec(100)))
                    ls.append("mul %d %d %d" % (r, a, b))
                    ls.append("set %d %s" % (r, vec()))
                elif x in ("cycle", "cycleu"):
                    ls.append("%s %d %d %s" % (x, r, rng.randrange(2), " ".join(str(rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 72, 128, 1001])) for _ in range(dim))))
                elif x == "exceed":
                    lim = [rng.randint(1, 20) for _ in range(dim)]
                    v = [rng.choice([-5, -1, 0, 1, q - 1, q, q + 3]) if rng.random() < 0.5 else rng.randrange(q) for q in lim]
                    ls.append("set %d %s" % (r, " ".join(map(str, v))))
                    ls.append("exceed %d %s" % (r, " ".join(map(str, lim))))
                elif x == "eq":
                    v = [rng.randint(-3, 3) for _ in range(dim)]
                    w = list(v)
                    if rng.random() < 0.6:
                        w[rng.randrange(dim)] += rng.choice([-1, 1, 2])
                    ls.append("set 0 " + " ".join(map(str, v)))
                    ls.append("set 1 " + " ".join(map(str, w)))
                    ls.append("eq 0 1")
                elif x == "len":
                    ls.append("set %d %s" % (r, vec(30)))
                    ls.append("len %d" % r)
                elif x == "prod":
                    ls.append("set 0 " + vec(60))
                    ls.append("set 1 " + vec(60))
                    ls.append("prod 0 1")
                elif x == "conv":
                    ls.append("conv " + " ".join(str(rng.randint(-40, 40)) for _ in range(dim)))
                elif x == "line":
                    for q in range(3):
                        ls.append("set %d %s" % (q, vec(9)))
                    ls.append("line 0 1 2")
                elif x == "rot90":
                    ls.append("rot90 %d %d %d %d" % (rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(-3100, 3100), rng.randint(-2, 2)))
                elif x == "rot":
                    ls.append("rot %d %d 0 %d" % (rng.randint(-30, 30), rng.randint(-30, 30), rng.randint(-3100, 3100)))
        scripts.append(ls)
    c.run_scripts(exe, scripts, "CyclicVecTrace", {"Lim": "1", "MaxRes": "1"})
    c.assumptions.append("coordinates below 2^15 (no integer overflow in products)")
