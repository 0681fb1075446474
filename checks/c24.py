"""C24: accumulated obstacle clouds."""
import vlib
NOTE = ("The hold rule is model-checked over all histories of a few stamps; the template and both local-map nodes (unmodified) are replayed with exact binary coordinates "
        "and every buffer and published map is decided by the specification.")
CONSTS = {"Stamps": "{0}", "Holds": "{0}", "MaxLen": "0"}


def accum_script(rng):
    ls = []
    for _ in range(30):
        ls.append("begin %d %d" % (rng.choice([0, 100, 500, 1000]), rng.randint(0, 1)))
        t = 10000
        for _ in range(rng.randint(3, 16)):
            r = rng.random()
            if r < .85:
                t += rng.choice([0, 1, 10, 50, 100, 100, 300, 700, 2000, -60, -400])
                ls.append("push %d" % t)
            elif r < .93:
                ls.append("clear")
            else:
                ls.append("reset %d" % rng.choice([0, 50, 100, 600]))
    return ls


def node_script(rng, kind):
    ls = []
    for _ in range(8):
        res = rng.choice([8, 16, 16, 32])
        w = rng.choice([4, 6, 8, 10])
        z = (-1000000, 0) if rng.random() < .2 and kind == "laser" else (rng.choice([-32, 0, 7]), rng.choice([30, 64]))
        zz = z if z[0] > -100000 else (-1000000, 1000000)
        ls.append("begin %d %s %d %d %d %d %d %d" % (rng.randint(0, 1), kind, rng.choice([0, 250, 500, 1000]), rng.choice([100, 250, 500, 1000]), w, res, zz[0], zz[1]))
        ls.append("start")
        ls.append("robot %d %d %d" % (rng.randint(-99, 99), rng.randint(-99, 99), rng.choice([0, 0, 20])))
        rob = list(map(int, ls[-1].split()[1:]))
        sen = None
        for _ in range(rng.randint(6, 18)):
            ls.append("wait %g" % rng.choice([.05, .1, .1, .25, .3, .7, 1.5]))
            if sen is None or rng.random() < .2:
                sen = [rob[0] + 2 * rng.randint(-20, 20), rob[1] + 2 * rng.randint(-20, 20), rob[2] + 2 * rng.randint(-4, 8), rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1])]
                if rng.random() < .1:
                    sen = None
                ls.append("sensor " + (" ".join(map(str, sen)) if sen else "none"))
            if rng.random() < .12:
                if rng.random() < .3:
                    ls.append("robot none")
                else:
                    rob = [rob[0] + rng.randint(-20, 20), rob[1] + rng.randint(-20, 20), rob[2] + rng.choice([0, 0, 5])]
                    ls.append("robot %d %d %d" % tuple(rob))
            exact = sen is not None and sen[3] == 0 and sen[4] == 0 and kind == "cloud"
            # boundaries are exact only without rotation; elsewhere cell edges are avoided by parity
            off = 0 if exact else 1
            lim = res * (w // 2 + 2)

            def co():
                v = rng.randint(-lim, lim)
                return v if exact else 2 * (v // 2) + 1
            par = (rob[0] - rob[0] % 2) if rob else 0
            if kind == "cloud":
                pts = []
                for _ in range(rng.choice([0, 1, 2, 5, 9])):
                    pts += [co() + (0 if exact else 0), co(), co() if rng.random() < .3 else 2 * rng.randint(-8, 40) + 1]
                ls.append("cloud %d %d %s" % (rng.random() < .25, rng.choice([0, 0, 0, -50, -400]), " ".join(map(str, pts))))
            else:
                ls.append("scan %d %d %d %s" % (rng.choice([0, 0, -50]), 3, lim, " ".join(str(2 * (abs(co()) // 2)) for _ in range(rng.choice([0, 1, 4, 6, 8])))))
            if sen is None:
                ls.append("wait 0.7")     # the node waits for the transform
    return ls


def even(ls, kind):
    """sensor positions and robot offsets are even so that points never lie on a cell edge after rotations"""
    out = []
    for l in ls:
        k = l.split()
        if k[0] in ("robot", "sensor") and k[1] != "none":
            k[1:4] = [str(int(x) // 2 * 2 + (kind == "laser" and k[0] == "sensor")) for x in k[1:4]]
        if k[0] == "begin" and int(k[7]) > -100000:
            k[7:9] = [str(int(x) // 2 * 2) for x in k[7:9]]
        out.append(" ".join(k))
    return out


def run(c):
    c.mc("Accum", "SPECIFICATION Spec\nINVARIANTS LastIsNew Ordered NoneOld\nPROPERTY Complete\n", {"Stamps": c.pick("0..3", "0..4"), "Holds": "{0, 1, 2}", "MaxLen": c.pick("5", "6")},
         name="Accum bounded", min_states=500, workers=8, timeout=1500)
    inc = [vlib.VERIF + "/rosstub/include", vlib.REPO + "/costmap_cspace/include"]
    exe = c.compile("accum", ["accum_driver.cpp"], inc, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    c.run_scripts(exe, [accum_script(c.rng) for _ in range(c.pick(6, 60))], "AccumTrace", CONSTS, name="accumulator")
    for kind, src in (("cloud", "pointcloud2_to_map"), ("laser", "laserscan_to_map")):
        exe = c.node(src, "localmap_driver.cpp", "costmap_cspace/src/%s.cpp" % src)
        c.run_scripts(exe, [even(node_script(c.rng, kind), kind) for _ in range(c.pick(10, 80))], "AccumTrace", CONSTS, name=src)
    c.assumptions.append("stamps do not precede the hold time after time zero")
