"""Scripts for the planner_3d node (C09, C10, C11)."""
CFG = ["planner_cspace/cfg/Planner3D.cfg"]


def build(c):
    return c.node("planner_3d", "planner3d_driver.cpp", "planner_cspace/src/planner_3d.cpp", cfg=CFG,
                  extra=["planner_cspace/src/" + f for f in ("motion_cache.cpp", "rotation_cache.cpp", "motion_primitive_builder.cpp", "grid_astar_model_3dof.cpp",
                                                             "distance_map.cpp", "costmap_bbf.cpp", "start_pose_predictor.cpp")], flags=["-fopenmp", "-Wno-narrowing"])


def model(c, goals, trig, esc, retry, over=0, timeout=840):
    c.mc("Planner3DModel", "SPECIFICATION MSpec\nINVARIANTS OneOutcome NoStray ActiveHasGoal StatusConsistent Layered\nPROPERTIES Withdrawn Steps\nVIEW MView\n",
         {"MaxGoals": str(goals), "Trig": str(trig), "Esc": str(esc), "Retry": str(retry), "Over": str(over)},
         name="Planner3DModel goals=%d trig=%d escape=%d retry=%d over=%d" % (goals, trig, esc, retry, over), timeout=timeout, workers=8, min_states=100 if goals == 0 else 1000)


def episodes(c, exe, kind, n, per=4, length=20):
    f = globals()[kind]
    c.run_scripts(exe, [sum((f(c.rng, length) for _ in range(per)), []) for _ in range(n)], "Planner3DTrace", {}, name="planner3d_" + kind)


class World:
    """Keeps track of what the script has given, in cells of the current map."""

    def __init__(self, rng, angles, rough=False):
        self.r, self.a, self.s = rng, angles, []
        self.stamp, self.gid = 1, 0
        self.w, self.h = 9, 8
        self.ox = self.oy = 0
        self.cells = []
        self.goal = None
        self.rough = rough

    def out(self, *x):
        self.s.append(" ".join(str(v) for v in x))

    def wait(self, t):
        self.out("wait", t)

    def begin(self, cfg, legacy=None, vel=None):
        r = self.r
        self.cfg = cfg
        self.out("begin", r.randint(0, 1) if legacy is None else legacy, r.randint(0, 1) if vel is None else vel, self.a, *["%s=%d" % kv for kv in cfg.items()])
        self.out("start")
        self.wait(r.choice([.05, .3]))

    def fresh(self):
        """costs of a new map: rooms with walls, cheap and expensive places"""
        r, w, h = self.r, self.w, self.h
        d = [0] * (w * h)
        if self.rough:
            return [r.choice([0, 0, 0, 10, 40, 60, 99, 100, 100, -1]) for _ in d]
        for _ in range(r.randint(0, 3)):
            if r.random() < .5:
                x, y0, n = r.randrange(w), r.randrange(h), r.randint(2, h)
                for y in range(y0, min(h, y0 + n)):
                    d[y * w + x] = 100
            else:
                y, x0, n = r.randrange(h), r.randrange(w), r.randint(2, w)
                for x in range(x0, min(w, x0 + n)):
                    d[y * w + x] = 100
        for _ in range(r.randint(0, 8)):
            d[r.randrange(w * h)] = r.choice([100, 100, 60, 30, 99, -1])
        return d

    def map(self, w=None, h=None, origin=None, layers=False):
        r = self.r
        if w:
            self.w, self.h = w, h
        if origin is not None:
            self.ox, self.oy = origin
        self.cells = self.fresh()
        self.stamp += 1
        d = list(self.cells)
        if layers:
            d = []
            for _ in range(self.a):
                d += [(100 if c == 100 or (c >= 0 and r.random() < .1) else c) for c in self.cells]
        self.out("map", self.stamp, self.w, self.h, self.ox, self.oy, *d)

    def upd(self, rect=None, stamp=None, vals=None, angles=None):
        """an update; rect (x, y, yaw, w, h, a)"""
        r = self.r
        if rect is None:
            w, h = r.randint(1, self.w), r.randint(1, self.h)
            rect = (r.randint(0, self.w - w), r.randint(0, self.h - h), 0, w, h, self.a)
        x, y, z, w, h, a = rect
        n = w * h
        d = [r.choice(vals or [0, 0, 0, 0, 0, 0, 0, 0, -1, 30, 100]) for _ in range(n)]
        if angles:
            d = sum(([c if r.random() < .8 else r.choice([0, 50, 100, -1]) for c in d] for _ in range(a)), [])
        self.out("upd", self.stamp if stamp is None else stamp, x, y, z, w, h, a, *d)

    def place(self, cell=None, k=None, frac=None):
        """a pose in milli cells, never near a cell border"""
        r = self.r
        if cell is None:
            m = min(self.cfg.get("range", 3), max(0, (min(self.w, self.h) - 1) // 2))
            if r.random() < .06:
                m = 0
            cell = (r.randint(m, self.w - 1 - m), r.randint(m, self.h - 1 - m))
            if r.random() < .8:
                free = [(i % self.w, i // self.w) for i, c in enumerate(self.cells) if c != 100 and m <= i % self.w < self.w - m and m <= i // self.w < self.h - m]
                cell = r.choice(free) if free else cell
        f = frac or (r.choice([200, 300, 430, 600, 700, 800]), r.choice([200, 300, 430, 600, 700, 800]))
        k = (self.a // 2 if r.random() < .3 else r.randrange(self.a)) if k is None else k
        return (self.ox + 1000 * cell[0] + f[0], self.oy + 1000 * cell[1] + f[1], 1000 * k + r.choice([-300, -100, 0, 0, 200, 400]))

    def pose(self, p=None):
        p = p or self.place()
        self.out("pose", *p)
        self.wait(.05)
        self.out("settled")

    def nopose(self):
        self.out("nopose")
        self.wait(.3)
        self.out("settled")

    def arrive(self, yaw=True):
        if self.goal is None:
            return self.pose()
        x, y, k = self.goal
        dx, dy = (x - self.ox) % 1000, (y - self.oy) % 1000
        q = (x - dx + self.r.choice([200, 500 if dx == 500 else 600, dx]), y - dy + self.r.choice([300, 700, dy]), k + (self.r.choice([-130, 0, 130]) if yaw else 1000 * self.r.choice([1, 2, 3, -1, -2, 8])))
        self.pose(q)

    def give(self, kind=None, bad=None):
        r = self.r
        kind = kind or r.choice(["goal", "mb", "mb", "tol", "tol"])
        p = self.place()
        frame, quat = 1, 1
        if bad is None and r.random() < .12:
            bad = r.choice(["frame", "quat", "out"])
        if bad == "frame":
            frame = 0
        if bad == "quat":
            quat = 0
        if bad == "out":
            p = (self.ox + 1000 * r.choice([-2, self.w + 1]) + 300, p[1], p[2])
        if not bad:
            self.goal = p
        if kind == "goal":
            self.out("goal", *p, frame, quat)
        else:
            self.gid += 1
            if kind == "mb":
                self.out("mb", self.gid, *p, frame, quat)
            else:
                self.out("tol", self.gid, *p, frame, quat, r.choice([0, 1, 2]), r.choice([0, 1, 3]), r.choice([435, 735, 1235, 2135]), int(r.random() < .3))

    def cancel(self):
        r = self.r
        self.out("cancel", r.choice(["mb", "tol"]), r.choice([0, 0, self.gid, max(1, self.gid - 1)]) if self.gid else 0)


def config(r, **over):
    c = {"tol": r.choice([1, 2, 3]), "lin": r.choice([0, 1, 2]), "ang": r.choice([0, 1, 2]), "fin": r.choice([435, 735, 1235]), "esc": 0, "range": r.choice([1, 1, 2]), "local": 20,
         "sw": r.choice([0, 150, 250]), "freq": 4000, "acc": r.choice([50, 50, 80]), "force": r.randint(0, 1), "retain": r.randint(0, 1), "anti": int(r.random() < .4), "best": r.randint(0, 1),
         "over": int(r.random() < .3), "fast": int(r.random() < .4), "unk": r.choice([100, 100, 0, 50]), "retry": r.choice([-1, -1, 0, 1, 3])}
    c.update(over)
    return c


def size(r):
    return r.randint(9, 13), r.randint(8, 11)


def origin(r):
    return r.choice([0, 0, 3000, -2500, -7125]), r.choice([0, 0, -4000, 1500, 10250])


def goals(r, n, angles=16, **over):
    """C09: goals from three sources, cancels, robot movement, map changes"""
    w = World(r, angles)
    w.begin(config(r, **over))
    if r.random() < .1:
        w.give()                       # before there is a map
        w.wait(.1)
    w.map(*size(r), origin(r), layers=r.random() < .15)
    w.wait(.05)
    w.pose()
    for _ in range(n):
        k = r.random()
        if k < .24:
            w.give()
        elif k < .44:
            w.arrive(yaw=r.random() < .7)
            if r.random() < .5:
                w.wait(.3)
        elif k < .58:
            w.pose()
        elif k < .67:
            w.cancel()
        elif k < .8:
            w.upd(angles=r.random() < .1)
            if r.random() < .3:
                w.give()
        elif k < .86:
            w.map(*(size(r) if r.random() < .5 else (w.w, w.h)), layers=r.random() < .1)
            w.wait(.05)
        elif k < .9:
            a, b = w.place(), w.place()
            w.out("mkplan", *a, *b, r.choice([0, 1, 2]), int(r.random() < .9))
        elif k < .93:
            w.out("cfg", *["%s=%d" % kv for kv in r.sample(sorted(config(r).items()), 3) if kv[0] in ("tol", "lin", "ang", "fin", "acc", "retry", "best", "force", "sw", "anti")] or ["acc=60"])
        w.wait(r.choice([0, .05, .3, .3, .3, .6]))
    w.wait(.6)
    return w.s


def escape(r, n, angles=16):
    """C09: goals that cannot be reached, temporary escape"""
    w = World(r, angles)
    w.begin(config(r, esc=1, sw=0, escr=r.choice([2, 3, 4]), escmin=r.choice([0, 500]), tel=r.choice([0, 1]), tea=r.choice([1, 2, 4]), retry=r.choice([-1, -1, 2])))
    w.map(*size(r), origin(r))
    w.wait(.05)
    w.pose()
    for _ in range(n):
        k = r.random()
        if k < .25:
            w.give(bad=False)
        elif k < .45:
            w.arrive()
            w.wait(.3)
        elif k < .6:
            w.pose()
        elif k < .66:
            w.cancel()
        elif k < .85:
            w.upd(vals=[0, 0, 0, 100, 100])
            if r.random() < .5:
                w.wait(.3)
                w.out("escape")
        else:
            w.out("escape")
        w.wait(r.choice([0, .05, .3, .3, .6]))
    w.wait(.6)
    return w.s


def faults(r, n, trig=None, angles=16):
    """C10: the costmap, the map and the robot pose come and go; a goal is there nearly always"""
    w = World(r, angles)
    trig = int(r.random() < .5) if trig is None else trig
    w.begin(config(r, sw=r.choice([0, 150]), watchdog=r.choice([405, 405, 955, 1505, 0]), trig=trig, retry=-1))
    w.map(*size(r), origin(r))
    w.wait(.05)
    w.pose()
    if r.random() < .8:
        w.upd(vals=[0, 0, 0, 0, 0, 30])
    w.wait(.05)
    w.give(bad=False)
    gone = False
    for _ in range(n):
        k = r.random()
        if k < .3:
            for _ in range(r.randint(1, 4)):
                w.upd(vals=[0, 0, 0, 0, 0, 30, 100] if r.random() < .3 else [0, 0, -1])
                w.wait(r.choice([.05, .1, .3]))
        elif k < .42:
            w.wait(r.choice([.4, .8, 1.2, 2]))
        elif k < .5:
            w.upd(rect=r.choice([(w.w - 1, 0, 0, 3, 2, angles), (0, w.h, 0, 2, 2, angles), (0, 0, 1, 2, 2, angles), (1000000, 0, 0, 1, 1, angles)]), stamp=r.choice([0, w.stamp, w.stamp + 5]))
        elif k < .62:
            if gone:
                w.pose()
            else:
                w.nopose()
            gone = not gone
        elif k < .72 and not gone:
            w.pose()
        elif k < .8:
            w.map(*(size(r) if r.random() < .6 else (w.w, w.h)))
            w.wait(.05)
        elif k < .92:
            w.give()
        elif k < .95:
            w.cancel()
        elif not gone:
            w.arrive()
        w.wait(r.choice([0, .05, .3, .3]))
        w.s[-1:] = w.s[-1:]
    if gone:
        w.pose()
    for _ in range(4):
        w.upd(vals=[0, 0, -1])
        w.wait(.3)
    return w.s


def cells(r, n):
    """C11: small random maps and updates of all shapes, every cell compared"""
    angles = r.choice([4, 4, 8])
    w = World(r, angles, rough=True)
    rng = r.choice([0, 1])
    w.begin(config(r, range=rng, over=r.randint(0, 1), unk=r.choice([0, 50, 100]), esc=0, tol=1, watchdog=0))
    dims = lambda: (r.randint(2 * rng + 1, 9), r.randint(2 * rng + 1, 8))
    if r.random() < .1:
        w.upd(rect=(0, 0, 0, 1, 1, angles))     # without a map: ignored
    w.map(*dims(), origin(r), layers=r.random() < .5)
    w.wait(.05)
    if r.random() < .7:
        w.pose()
    w.out("dump")
    for _ in range(n):
        k = r.random()
        if k < .62:
            ww, hh, aa = r.randint(1, w.w), r.randint(1, w.h), r.choice([1, angles, angles, angles])
            if r.random() < .2:
                ww = w.w
            if r.random() < .2:
                hh = w.h
            w.upd((r.randint(0, w.w - ww), r.randint(0, w.h - hh), r.randint(0, angles - aa), ww, hh, aa), vals=[0, 10, 40, 60, 99, 100, 100, -1, -1], angles=r.random() < .6)
        elif k < .78:
            bad = r.choice(["x", "y", "a", "big", "wrapx", "wrapy"])
            x, y, z, ww, hh, aa = 0, 0, 0, r.randint(1, w.w), r.randint(1, w.h), angles
            if bad == "x":
                x = w.w - ww + r.randint(1, 3)
            elif bad == "y":
                y = w.h - hh + r.randint(1, 3)
            elif bad == "a":
                z = r.randint(1, angles)
            elif bad == "big":
                ww, hh = w.w + 1, w.h + 1
            elif bad == "wrapx":
                x, ww = 4294967296 - r.randint(1, ww), ww
            else:
                y, hh = 4294967296 - r.randint(1, hh), hh
            w.upd((x, y, z, ww, hh, aa), stamp=r.choice([0, w.stamp, w.stamp + 1, w.stamp + 3]), vals=[0, 60, 100, -1], angles=r.random() < .3)
        elif k < .88:
            w.map(*(dims() if r.random() < .8 else (w.w, w.h)), layers=r.random() < .5)
        elif k < .94:
            w.give("goal", bad=False)
            w.wait(.3)
        else:
            w.out("cfg", "over=%d" % r.randint(0, 1))
        w.wait(r.choice([0.05, 0.05, .3]))
        w.out("dump")
    return w.s
