"""Scripts for the safety limiter (C15, C16). Obstacles keep clear of the footprint boundary at every predicted step,
so that float rounding in the node cannot change a verdict; everything else is free."""
import math

FOOTS = [[(3000, 2000), (3000, -2000), (-3000, -2000), (-3000, 2000)],
         [(4000, 1000), (1000, 3000), (-2500, 1500), (-2500, -1500), (1000, -3000)],
         [(5000, 0), (-2000, 2500), (-2000, -2500)],
         [(2000, 2000), (2000, -1000), (-6000, -1000), (-6000, 2000)],
         [(3000, -2000), (-3000, -2000), (-3000, 2000), (0, 2500), (3000, 2000), (1500, 0)]]
CMDS = [(5000, 0), (10000, 0), (3000, 4000), (-4000, 0), (0, 3000), (0, -6000), (0, 0), (1200, 500), (2000, 0), (8000, 0), (-1500, -2000)]


def config(rng):
    while True:
        c = dict(period=rng.choice([50, 100, 100, 125, 200, 250]), dt=rng.choice([50, 100]), timeout=rng.choice([300, 500, 800, 150]),
                 disable=rng.choice([100, 200, 500]), hold=rng.choice([0, 0, 100, 300, 600, 1000]), watchdog=rng.choice([0, 0, 305, 410, 605]),
                 linvel=rng.choice([5000, 10000, 3000]), linacc=rng.choice([10000, 5000, 20000, 3000]), angvel=rng.choice([8000, 15000, 5000]), angacc=rng.choice([16000, 8000, 24000]),
                 maxlin=rng.choice([100000, 100000, 100000, 3000, 700, 0]), maxang=rng.choice([31000, 31000, 31000, 4000, 0]),
                 zmin=rng.choice([0, -500]), zmax=rng.choice([5000, 2000]), dmargin=rng.choice([2000, 500, 0, 1000]), descape=rng.choice([507, 1003, 0, 2011]),
                 yawmargin=rng.choice([2000, 500, 0]), yawescape=rng.choice([507, 1009, 2003, 0]), allowempty=rng.choice([0, 0, 1]))
        h = 1500 * max(c["linvel"] / c["linacc"], c["angvel"] / c["angacc"]) + 1000 * max(c["dmargin"] / c["linvel"], c["yawmargin"] / c["angvel"])
        if .15 < (h / c["dt"]) % 1 < .85 and 2 * c["dt"] < h < 3000:
            c["h"] = h
            return c


def quarter(p, q):
    x, y = p
    return [(x, y), (-y, x), (-x, -y), (y, -x)][q % 4]


def frm(p, f):
    return quarter((p[0] - f[0], p[1] - f[1]), 4 - f[2] % 4)


def steps(m, c):
    """robot poses along the predicted motion"""
    out = []
    x = y = 0.0
    n = math.ceil(c["h"] / c["dt"])
    for k in range(n):
        a = math.radians(m[2] * k)
        out.append((x, y, a))
        dx, dy = m[0] * c["dt"] / 1000, m[1] * c["dt"] / 1000
        x += dx * math.cos(a) - dy * math.sin(a)
        y += dx * math.sin(a) + dy * math.cos(a)
    return out


def edge(p, a, b):
    ux, uy = b[0] - a[0], b[1] - a[1]
    t = max(0, min(1, ((p[0] - a[0]) * ux + (p[1] - a[1]) * uy) / (ux * ux + uy * uy)))
    return math.hypot(p[0] - a[0] - t * ux, p[1] - a[1] - t * uy)


def rel(p, s):
    dx, dy = p[0] - s[0], p[1] - s[1]
    return dx * math.cos(s[2]) + dy * math.sin(s[2]), -dx * math.sin(s[2]) + dy * math.cos(s[2])


def clear(p, paths, poses, foot):
    for f in poses:
        q = frm(p, f)
        if max(abs(q[0]), abs(q[1])) > 40000:
            return False
        for path in paths:
            for s in path:
                r = rel(q, s)
                if any(edge(r, foot[i], foot[(i + 1) % len(foot)]) < 25 for i in range(len(foot))):
                    return False
    return True


def episode(rng, style):
    c = config(rng)
    if style == "stop":
        c["timeout"] = rng.choice([150, 300, 500])
        c["watchdog"] = rng.choice([0, 305, 305, 410])
    else:
        c["watchdog"] = rng.choice([0, 0, 0, 605])
        c["maxlin"] = rng.choice([100000] * 6 + [3000, 700])
        c["maxang"] = rng.choice([31000] * 6 + [4000])
        c["timeout"] = rng.choice([500, 800, 1500])
        c["dmargin"], c["yawmargin"] = rng.choice([0, 200, 500]), rng.choice([0, 100, 500])
        c["hold"] = rng.choice([0, 100, 200, 600])
        while True:
            c["linvel"], c["linacc"] = rng.choice([(5000, 5000), (10000, 10000), (5000, 3000), (5000, 4000), (8000, 6000), (10000, 8000)])
            h = 1500 * max(c["linvel"] / c["linacc"], c["angvel"] / c["angacc"]) + 1000 * max(c["dmargin"] / c["linvel"], c["yawmargin"] / c["angvel"])
            c["dt"] = rng.choice([50, 100])
            if .15 < (h / c["dt"]) % 1 < .85 and 2 * c["dt"] < h < 3500:
                c["h"] = h
                break
            c["dmargin"] = rng.choice([0, 200, 500, 330, 710])
    foot = rng.choice(FOOTS)
    legacy, ncl, static = rng.randint(0, 1), rng.choice([1, 1, 1, 2]), rng.randint(0, 1)
    ls = ["begin %d %d %d %s foot %s" % (legacy, ncl, static, " ".join("%s=%d" % (k, c[k]) for k in c if k != "h"), " ".join("%d %d" % p for p in foot)), "start"]
    cmds = []
    for _ in range(rng.randint(2, 4)):
        v = rng.choice(CMDS if style == "stop" or rng.random() < .4 else [(5000, 0), (8000, 0), (10000, 0), (6000, 8000), (-8000, 0)])
        cmds.append((v[0], v[1], rng.choice([0, 0, 0, 0, 1, -2, 5, 3, -4])))
    poses = [(rng.randint(-20000, 20000), rng.randint(-20000, 20000), rng.randint(0, 3))]
    for _ in range(rng.choice([0, 1, 2])):
        f = poses[-1]
        poses.append((f[0] + rng.randint(-3000, 3000), f[1] + rng.randint(-3000, 3000), f[2] + rng.choice([0, 0, 0, 1])))
    sensors = [(rng.randint(-2000, 2000), rng.randint(-2000, 2000), rng.randint(0, 3)) for _ in range(rng.choice([1, 1, 2]))]
    paths = [steps(m, c) for m in cmds]
    pool = []
    for _ in range(60):
        if len(pool) >= (6 if style == "stop" else 4):
            break
        f, path = rng.choice(poses), rng.choice(paths)
        s = rng.choice(path) if rng.random() < .8 else path[0]
        if style == "limit" and rng.random() < .8:
            s = rng.choice(path[len(path) // 3:])
        a = rng.choice(foot)
        k = rng.choice([.3, .8, .95, 1.05, 1.3, 2, 4])
        q = (a[0] * k + rng.randint(-700, 700), a[1] * k + rng.randint(-700, 700))
        q = (s[0] + q[0] * math.cos(s[2]) - q[1] * math.sin(s[2]), s[1] + q[0] * math.sin(s[2]) + q[1] * math.cos(s[2]))
        g = quarter((round(q[0]), round(q[1])), f[2])
        p = (g[0] + f[0], g[1] + f[1])
        if all(math.hypot(p[0] - o[0], p[1] - o[1]) > 500 for o in pool) and clear(p, paths, poses, foot):
            pool.append(p + ((rng.choice([1000, 1000, 1000, 1000, 1500, 7000, -1500])),))
    far = None
    for _ in range(50):
        p = (poses[0][0] + rng.choice([-1, 1]) * rng.randint(25000, 33000), poses[0][1] + rng.randint(-20000, 20000))
        if style == "limit" and all(math.hypot(p[0] - o[0], p[1] - o[1]) > 500 for o in pool) and clear(p, paths, poses, foot):
            far = p + (1000,)
            break
    t = 0
    samples = []
    cur = [None, None]
    last = [0.0]

    def go(to):
        d = to - last[0]
        if d > 0:
            ls.append("wait %.3f" % (d / 1000.0))
            last[0] = to

    def pose(f):
        cur[0] = f
        if f is None:
            ls.append("pose none")
            samples.clear()
        else:
            if static:
                samples.clear()
            samples.append((t, f))
            ls.append("pose %d %d %d %d" % (static, f[0], f[1], f[2]))

    def sensor(f):
        cur[1] = f
        ls.append("sensor none" if f is None else "sensor 1 %d %d %d" % f)

    def cloud():
        off = rng.choice([0, 0, 0, 0, -50, -100, -300] if style != "stop" else [0, 0, 0, -100, -200, -600])
        st = t + off
        if not static and samples and rng.random() < .5:
            st = rng.choice(samples)[0]
        if not static and len(samples) > 1 and samples[0][0] < st < samples[-1][0] and st not in [s[0] for s in samples]:
            st = samples[-1][0]
        pts = []
        if cur[0] and cur[1] and rng.random() < .9:
            f = dict(samples).get(st, samples[-1][1]) if not static else samples[-1][1]
            for p in pool + ([far] if far and rng.random() < .95 else []):
                if p is far or rng.random() < (.45 if style == "stop" else .35):
                    q = frm(frm(p[:2], f), cur[1])
                    pts += [q[0], q[1], p[2]]
        elif rng.random() < .3:
            pts = [rng.randint(0, 1) * 100000 + 90000, 0, 1000] if not (cur[0] and cur[1]) else []
        ls.append("cloud %d %d %s" % (rng.randint(0, ncl - 1), st, " ".join(map(str, pts))))
    t = 2
    go(t)
    if rng.random() < .95:
        pose(poses[0])
    if rng.random() < .95:
        sensor(sensors[0])
    pi = 0
    rate = rng.choice([40, 60, 100, 150])
    crate = rng.choice([.15, .4, .7])
    mute = 0
    for _ in range(rng.randint(15, 45)):
        t = (t // 5) * 5 + 2 + 5 * rng.randint(1, max(1, rate // 5 * 2))
        if rng.random() < .05:
            t += 5 * rng.randint(20, 160)
        go(t)
        r = rng.random()
        if style == "limit":
            r = r if r < .05 or r > .995 else 1 if rng.random() < .97 else r
        if r < .05 and pi + 1 < len(poses):
            pi += 1
            pose(poses[pi])
        elif r < .07:
            pose(None)
        elif r < .10 and cur[0] is None:
            pose(poses[pi])
        elif r < .12:
            sensor(rng.choice(sensors + [None]))
        elif r < .15 and cur[1] is None:
            sensor(sensors[0])
        if rng.random() < crate:
            cloud()
        if rng.random() < .6:
            ls.append("cmd %d %d %d" % rng.choice(cmds))
        if rng.random() < (.35 if c["watchdog"] else .03):
            t += 1
            go(t)
            ls.append("reset")
        if rng.random() < (.1 if style == "stop" else .03):
            t = t // 5 * 5 + 6
            go(t)
            ls.append("disable %d" % (rng.random() < .8))
    ls.append("wait 0.%03d" % rng.choice([0, 12, 157]))
    return ls


def script(rng, style, n):
    out = []
    for _ in range(n):
        out += episode(rng, style)
    return out
