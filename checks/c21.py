"""C21: path following."""
import vlib
NOTE = ("Path geometry and follower progress specified in TLA+ and model-checked on small paths; Path2D and the line helpers are bound by "
        "trace validation on random integer-geometry paths; trusts TLC and the driver. The tracker node is driven too and its commands and reported progress must follow the specified control step.")
INC = [vlib.VERIF + "/rosstub/include", vlib.REPO + "/trajectory_tracker/include", "/usr/include/eigen3"]


def path2d_scripts(rng, n):
    scripts = []
    for _ in range(n):
        ls = []
        for _ in range(12):
            ls.append("begin")
            m = rng.choice([0, 1, 2, 3, 5, 8, 12, 16])
            kind = rng.random()
            far = rng.choice([3, 8, 40])
            x = y = 0
            k = rng.randint(0, 15)
            ps = []
            for _ in range(m):
                ps.append((x, y, k, rng.randint(0, 20)))
                r = rng.random()
                if r < 0.2:
                    k = rng.randint(0, 15)
                elif kind < 0.5:
                    if r < 0.4:
                        k = (k + rng.choice([-1, 1, 8])) % 16
                    d = rng.choice([-1, 1, 1, 1]) * rng.randint(1, far)
                    import math
                    x += round(d * math.cos(k * math.pi / 8))
                    y += round(d * math.sin(k * math.pi / 8))
                else:
                    x += rng.randint(-far, far)
                    y += rng.randint(-far, far)
            how = rng.choice(["path", "path", "msg", "msgv", "msg", "msgv"])
            body = "%d %s" % (len(ps), " ".join("%d %d %d %d" % q for q in ps))
            if how == "path":
                ls.append("path " + body)
            else:
                eps = rng.choice([0, 0, 1, 2, 5])
                ls.append("%s %d %s" % (how, eps, body))
                # same merging rule as the specification, only to choose valid indices
                out, turn = [], None
                for q in ps:
                    if not out:
                        out.append(q)
                        continue
                    b = out[-1]
                    d2 = (b[0] - q[0]) ** 2 + (b[1] - q[1]) ** 2
                    if (d2 > 0 if eps == 0 else 4 * d2 >= (2 * eps + 1) ** 2):
                        if turn:
                            out.append(turn)
                        turn = None
                        out.append(q)
                    else:
                        turn = (b[0], b[1], q[2], q[3])
                if turn:
                    out.append(turn)
                ps = out
            n_ = len(ps)
            for _ in range(14):
                b = rng.choice([0, 0, rng.randint(0, n_)])
                e = rng.choice([n_, n_, rng.randint(b, n_)])
                if rng.random() < 0.4 and n_:
                    q = rng.choice(ps)
                    t = (q[0] + rng.randint(-6, 6), q[1] + rng.randint(-6, 6))
                else:
                    t = (rng.randint(-60, 60), rng.randint(-60, 60))
                rg = rng.choice([0, 0, rng.randint(1, 10), rng.randint(10, 60)])
                flags = "%d %d" % (rng.choice([0, 1, 1]), rng.choice([0, 1, 1]))
                if b < e:
                    ls.append("lg %d %d %s %d" % (b, e, flags, rng.choice([0, 0, 1, 3])))
                    ls.append("goals %d %d %s %d" % (b, e, flags, rng.choice([0, 0, 1, 3])))
                    nr = rng.randint(b, e - 1)
                    ls.append("rem %d %d %d %d %d" % (b, nr, e, t[0], t[1]))
                    seg = ps[b:e]
                    if all(seg[i][:2] != seg[j][:2] for i in range(len(seg)) for j in range(max(0, i - 2), i)) and far <= 8:
                        ls.append("curv %d %d %d %d %d" % (b, e, t[0], t[1], rng.randint(1, 30)))
                ls.append("near %d %d %d %d %d" % (b, e, t[0], t[1], rg))
                ls.append("eta %d %d %d %d %d" % (b, e, rng.randint(4, 40), rng.randint(1, 12), rng.choice([0, 500, 1250])))
        ls.append("begin")
        for _ in range(60):
            v = [rng.randint(-30, 30) for _ in range(6)]
            ls.append("line " + " ".join(map(str, v)))
            ls.append("rot %d %d %d %d" % (v[0], v[1], rng.randint(-8, 8), rng.randint(-16, 16)))
            ls.append("arc %d %d %d %d %d %d" % (v[2], v[3], rng.randint(0, 15), rng.choice([-1, 1]) * rng.randint(3, 80), rng.randint(50, 1400), rng.randint(0, 1)))
        scripts.append(ls)
    return scripts


def run(c):
    paths = "{<<<<0,0,0,0>>,<<2,0,0,0>>,<<4,0,0,0>>,<<2,0,0,0>>,<<0,2,12,0>>>>, <<<<0,0,0,0>>,<<2,0,0,0>>,<<2,0,4,0>>,<<2,3,4,0>>,<<2,1,4,0>>,<<2,4,4,0>>>>, <<<<0,0,0,0>>,<<-3,0,0,0>>,<<0,0,0,0>>,<<0,3,4,0>>,<<0,0,4,0>>,<<3,0,0,0>>>>, <<<<1,1,2,0>>>>, <<<<0,0,0,0>>,<<0,0,8,0>>>>}"
    r = str(c.pick(4, 8))
    c.mc("Path2D", "SPECIFICATION Spec\nINVARIANTS NotBeforeReversal OneDirection GoalsReal\nPROPERTY NoBack\n",
         {"Paths": paths, "Places": "(-%s..%s) \\X (-%s..%s)" % (r, r, r, r), "SearchRange": "3"}, name="Path2D follower bounded", min_states=100)
    exe = c.compile("path2d", ["path2d_driver.cpp"], INC, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], libs=["-lboost_thread", "-lboost_chrono", "-lboost_system"])
    c.run_scripts(exe, path2d_scripts(c.rng, c.pick(8, 80)), "Path2DTrace", {"Paths": "{}", "Places": "{}", "SearchRange": "0"}, name="path2d")
    c.assumptions.append("paths have finite coordinates; perpendicular steps may be classified either way")
    from checks import c19, tracker_gen
    node = c19.build(c)
    c.run_scripts(node, [tracker_gen.closed_loop(c.rng, 20, c.rng.choice([("rev",), ("turn",), ("curve", "rev", "turn")])) for _ in range(c.pick(16, 120))], "TrackerTrace", c19.CONSTS, name="tracker_progress")
