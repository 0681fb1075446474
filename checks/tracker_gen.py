"""Scripts for the trajectory_tracker node (C19, C20, C21): open-loop poses and closed-loop drives."""
import math


def dense_path(rng, n, kinds, start=None):
    """Points in cm, heading in sixteenths: forward pieces, reversals, in-place turns, no long steps."""
    x, y, k = start or (rng.randint(-200, 200), rng.randint(-200, 200), rng.randint(0, 15))
    ps = [(x, y, k)]
    rev = 1
    d = rng.choice([5, 10, 10, 20])
    for _ in range(n - 1):
        r = rng.random()
        if "turn" in kinds and r < .08 and len(ps) > 1:
            k = (k + rng.choice([-4, -2, -1, 1, 2, 4, 8])) % 16
            ps.append((x, y, k))
            continue
        if "rev" in kinds and r < .16 and len(ps) > 2:
            rev = -rev
        if "curve" in kinds and r > .7:
            k = (k + rng.choice([-1, 1])) % 16
        x += round(rev * d * math.cos(k * math.pi / 8))
        y += round(rev * d * math.sin(k * math.pi / 8))
        ps.append((x, y, k))
    return ps


def path_line(rng, ident, ps, frame=1, bad=False, zero=True):
    v = rng.random() < .4
    s = []
    for i, q in enumerate(ps):
        vel = -1000000 if not v or rng.random() < .5 else rng.choice([100, 200, 300, 500, 0 if zero and rng.random() < .1 else 400])
        if bad and i == len(ps) // 2:
            vel, v = -100, True
        s.append("%d %d %d %d" % (q[0], q[1], q[2], vel))
    return ("pathv" if v else "path") + " %d %d %s" % (ident, frame, " ".join(s))


def begin(rng, odom, extra=(), period=20, timeout=100, frames=None, predict=None, legacy=None):
    cfg = dict(extra)
    return "begin %d %d %d %d %d %d %d %d %d %d %s" % (
        rng.randint(0, 1) if legacy is None else legacy, odom, period, timeout, 100, rng.random() < .7 if predict is None else predict,
        rng.randint(-300, 300), rng.randint(-300, 300), rng.randint(0, 3), odom and rng.random() < .2, " ".join("%s=%d" % kv for kv in cfg.items()))


def random_cfg(rng):
    c = {}
    if rng.random() < .5:
        c["look_forward"] = rng.choice([0, 0, 200, 800])
    if rng.random() < .4:
        c["max_vel"] = rng.choice([100, 300, 1000])
    if rng.random() < .3:
        c["max_angvel"] = rng.choice([300, 600, 2000])
    if rng.random() < .4:
        c["max_acc"] = rng.choice([200, 500, 3000])
    if rng.random() < .4:
        c["max_angacc"] = rng.choice([400, 1000, 5000])
    if rng.random() < .3:
        c["dist_stop"] = rng.choice([300, 600, 1000])
    if rng.random() < .2:
        c["rotate_ang"] = rng.choice([300, 1500, 3141])
    if rng.random() < .3:
        c["goal_tolerance_dist"] = rng.choice([50, 100, 400])
    if rng.random() < .3:
        c["goal_tolerance_ang"] = rng.choice([50, 400])
    if rng.random() < .2:
        c["stop_tolerance_dist"] = rng.choice([30, 200])
    if rng.random() < .15:
        c["allow_backward"] = 0
    if rng.random() < .1:
        c["no_position_control_dist"] = rng.choice([300, 1000])
    if rng.random() < .1:
        c["min_tracking_path"] = rng.choice([100, 500])
    if rng.random() < .15:
        c["use_time_optimal_control"] = 0
    if rng.random() < .15:
        c["limit_vel_by_avel"] = 1
    if rng.random() < .25:
        c["goal_tolerance_lin_vel"] = rng.choice([50, 200])
    if rng.random() < .2:
        c["goal_tolerance_ang_vel"] = rng.choice([50, 200])
    return c


def open_loop(rng):
    odom = rng.random() < .7
    period = rng.choice([20, 20, 50]) if not odom else 20
    timeout = rng.choice([100, 100, 60, 0])
    ls = [begin(rng, odom, random_cfg(rng), period, timeout), "start", "map 1", "wait 0.005"]
    ident, ps = 0, []
    last = None
    for _ in range(rng.randint(25, 60)):
        r = rng.random()
        if not ps and r < .5 or r < .06:
            ident += 1
            kinds = rng.choice([(), ("curve",), ("curve", "rev"), ("curve", "rev", "turn"), ("turn",)])
            m = rng.choice([0, 1, 2, 3, 5, 12, 20, 28])
            ps = dense_path(rng, m, kinds) if m else []
            ls.append(path_line(rng, ident, ps, 0 if rng.random() < .05 else 1, bad=m > 1 and rng.random() < .07))
            pos = 0.
        elif r < .09:
            ls.append("speed %d" % rng.choice([0, 100, 300, 700]))
        elif r < .12:
            ls.append("map %d" % rng.choice([0, 1, 1]))
        elif r < .14:
            ls.append("cfg max_vel=%d max_acc=%d" % (rng.choice([100, 500]), rng.choice([300, 1000])))
        # a pose near the path, moving along it, sometimes jumping
        if ps:
            if rng.random() < .08:
                pos = rng.uniform(0, len(ps) - 1)
            pos = min(len(ps) - 1, pos + rng.choice([0, .3, .7, 1]))
            q = ps[int(pos)]
            off = rng.choice([0, 0, 2, 8, 30, 150, 400]) if rng.random() < .3 else rng.choice([0, 2])
            x, y = q[0] + rng.randint(-off, off), q[1] + rng.randint(-off, off)
            yaw = round(q[2] * math.pi / 8 * 1000) + rng.choice([0, 0, 20, -40, 100, 500, -1500, 3000])
            if rng.random() < .25:
                x, y, yaw = ps[-1][0] + rng.randint(-10, 10), ps[-1][1] + rng.randint(-10, 10), round(ps[-1][2] * math.pi / 8 * 1000) + rng.choice([0, 30, -60, 90, -130])
            last = (x, y, yaw)
        elif last is None:
            last = (0, 0, 0)
        if odom:
            for _ in range(rng.choice([1, 1, 2, 4])):
                ls.append("odom %d %d %d %d %d %d" % (last[0], last[1], last[2], rng.choice([0, 0, 30, 100, 300]), rng.choice([0, 0, 40, -150]), rng.choice([0, 0, 0, 10])))
                ls.append("wait %.3f" % rng.choice([.02, .02, .01, .05]))
            if rng.random() < .06:
                ls.append("wait %.3f" % rng.choice([.12, .3, .061]))
        else:
            if rng.random() < .05:
                ls.append("pose none")
            else:
                ls.append("pose %d %d %d" % last)
            ls.append("wait %.3f" % (period * rng.choice([1, 1, 2, 5]) / 1000))
    ls.append("wait 0.007")
    return ls


def closed_loop(rng, secs, kinds=None, extra=None, goal=True):
    """A drive with a simulated robot along a drivable path; it must end at the goal, at rest."""
    odom = rng.random() < .6
    kinds = rng.choice([(), ("curve",), ("rev",), ("turn",), ("curve", "rev", "turn")]) if kinds is None else kinds
    ls = [begin(rng, odom, extra or {}, 20, 100), "start", "map 1", "wait 0.005"]
    n = rng.randint(8, 24)
    ps = dense_path(rng, n, kinds)
    q = ps[0]
    ls.append("robot %d %d %d" % (q[0] + rng.randint(-6, 6), q[1] + rng.randint(-6, 6), round(q[2] * math.pi / 8 * 1000) + rng.randint(-300, 300)))
    ls.append("step")
    if odom:
        ls.append("wait 0.02")
    ls.append(path_line(rng, 7, ps, zero=False))
    for k in range(int(secs / .02)):
        ls.append("step")
        ls.append("wait 0.02")
        if not goal and rng.random() < .01:
            ls.append("speed %d" % rng.choice([100, 300, 700]))
        if not goal and rng.random() < .003:
            ls.append(path_line(rng, 8 + k, ps))
    if goal:
        ls.append("expect goal")
    ls.append("wait 0.003")
    return ls
