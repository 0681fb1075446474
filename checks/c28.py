"""C28: start pose prediction on the previous path."""
import vlib
NOTE = ("The prediction (passed part, arrival times, reversals, grid centres, collision) is a set-valued TLA+ function on integer geometry, explored exhaustively for "
        "paths x robot poses x obstacles; every answer of the real class on random paths, maps, poses and settings must be in that set.")
CONSTS = {"Paths": "{}", "Places": "{}", "SearchRange": "0", "MPaths": "{}", "MX": "{}", "MY": "{}", "MObst": "{}"}
PATHS = ("{<<<<0,0,0,0>>,<<4,0,0,0>>,<<8,0,0,0>>,<<12,0,0,0>>,<<16,0,0,0>>>>, <<<<0,0,0,0>>,<<8,0,0,0>>,<<16,0,0,0>>,<<8,0,0,0>>,<<0,0,0,0>>,<<0,0,4,0>>,<<0,8,4,0>>>>, "
         "<<<<0,8,8,0>>>>, <<<<0,0,0,0>>,<<0,0,4,0>>>>, <<<<0,0,0,0>>,<<4,0,0,0>>,<<8,0,0,0>>,<<8,0,4,0>>,<<8,4,4,0>>,<<8,8,4,0>>,<<8,4,4,0>>,<<8,0,4,0>>>>, "
         "<<<<3,1,0,0>>,<<9,1,0,0>>,<<15,2,0,0>>,<<9,1,0,0>>>>}")


def build(c):
    return c.compile("startpose", ["startpose_driver.cpp", vlib.REPO + "/planner_cspace/src/start_pose_predictor.cpp"],
                     [vlib.VERIF + "/rosstub/include", vlib.REPO + "/planner_cspace/include", vlib.REPO + "/trajectory_tracker/include", "/usr/include/eigen3"],
                     flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], libs=["-lboost_chrono", "-lboost_system", "-lboost_thread"])


def path(r, res, a, ox, oy, w, h):
    """poses inside the map: steps between cell centres with poses in between, turns, reversals, repetitions"""
    x, y, k = r.randrange(1, w - 1), r.randrange(1, h - 1), 16 // a * r.randrange(a)
    off = r.choice([0, 0, 0, 0, 1])
    out = [(ox + x * res + res // 2 + off, oy + y * res + res // 2, k)]
    straight = r.random() < .4
    d = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])
    for _ in range(r.choice([0, 1, 3, 5, 8, 10])):
        m = r.random()
        if m < .15:
            k = (k + r.choice([1, 2, 4, 8, -4]) * (1 if r.random() < .2 else 16 // a)) % 16
            out.append((out[-1][0], out[-1][1], k))
            continue
        if m < .19:
            out.append(out[-1])
            continue
        if not straight or r.random() < .2:
            d = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1), (-d[0], -d[1])])
            if r.random() < .6:
                k = {(1, 0): 0, (0, 1): 4, (-1, 0): 8, (0, -1): 12, (1, 1): 2, (-1, 1): 6, (-1, -1): 10, (1, -1): 14}[d]
        nx, ny = x + d[0], y + d[1]
        if not (0 <= nx < w and 0 <= ny < h):
            d = (-d[0], -d[1])
            nx, ny = max(0, min(w - 1, x + d[0])), max(0, min(h - 1, y + d[1]))
            if (nx, ny) == (x, y):
                continue
        parts = r.choice([1, 1, 2, 4])
        for i in range(1, parts + 1):
            q = (ox + x * res + res // 2 + (nx - x) * res * i // parts + off, oy + y * res + res // 2 + (ny - y) * res * i // parts, k)
            out.append(q)
        x, y = nx, ny
    return out


def scripts(r, n):
    ls = []
    for _ in range(n):
        res, a = r.choice([8, 8, 16, 4]), r.choice([4, 8, 16])
        w, h = r.randint(5, 9), r.randint(5, 9)
        ox, oy = r.choice([0, -20, 7, -33]), r.choice([0, -16, 5])
        ps = []
        new = True
        for _ in range(r.randint(6, 12)):
            if new or r.random() < .3:
                ls.append("conf %d %d %d %d %d %d" % (r.randint(0, 1), r.choice([0, 100, 500, 1000, 3000]), r.choice([0, 1000, 4000, 9000]), r.choice([250, 450, 850, 1630]), r.choice([8, 16, 24]), r.choice([2, 4, 8])))
                p = path(r, res, a, ox, oy, w, h)
            if new or r.random() < .5:
                cells = [(r.randrange(w), r.randrange(h), r.choice([-1, -1, r.randrange(a)])) for _ in range(r.choice([0, 0, 1, 2, 6]))]
                if r.random() < .5 and p:      # on the path
                    q = r.choice(p)
                    cells.append(((q[0] - ox) // res, (q[1] - oy) // res, r.choice([-1, (q[2] * a // 16) % a])))
                cells = sorted(set(t for t in cells if 0 <= t[0] < w and 0 <= t[1] < h))
                ls.append("map %d %d %d %d %d %d %d %s" % (w, h, a, res, ox, oy, len(cells), " ".join("%d %d %d" % t for t in cells)))
            new = False
            q = r.choice(p)
            s = r.choice([0, 0, 1, 3, 6, 14])
            if r.random() < .1:
                ls.append("clear")
            use = p if r.random() > .04 else []
            ls.append("pred %d %d %d %d %s" % (q[0] + r.randint(-s, s), q[1] + r.randint(-s, s), (q[2] + r.choice([0, 0, 0, 1, -1, 8, 4])) % 16, len(use), " ".join("%d %d %d" % t for t in use)))
    return ls


def run(c):
    c.mc("StartPose", "SPECIFICATION MSpec\nINVARIANTS OnPath Free OnCentre LateEnough FarRefused NothingKept\n",
         dict(CONSTS, MPaths=PATHS, MX=c.pick("{-14, -2, 0, 1, 5, 8, 16, 30}", "-14..30"), MY=c.pick("{-6, 0, 1, 7, 13}", "-12..14"), MObst="{{}} \\cup {{<<x, y, z>>} : x \\in 2..4, y \\in 2..3, z \\in 0..1}"),
         min_states=1000, workers=8, timeout=850)
    exe = build(c)
    c.run_scripts(exe, [scripts(c.rng, 25) for _ in range(c.pick(24, 240))], "StartPoseTrace", CONSTS)
    c.assumptions.append("the previous path lies inside the map; poses of the path are exact at 1/16 m and a sixteenth of a turn; decisions closer than the rounding of the arithmetic are left open")
