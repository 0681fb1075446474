"""C22: odometry estimation."""
NOTE = ("Integration, attitude, frames, height reset/filter and the slip filter are specified in integer geometry (24 attitudes) and model-checked over all short histories; "
        "the unmodified track_odometry node is replayed under random histories of wheel odometry, IMU samples, transform losses and resets, and every published pose and transform is decided by the specification.")


def rot(rng):
    r = rng.random()
    return "%d %d %d" % ((0, 0, rng.randint(0, 3)) if r < .5 else (rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)))


def episode(rng):
    alone, kf = rng.random() < .15, rng.randint(0, 1)
    zt, zl = rng.choice([0, 0, 0, 4, 16, 32, 128]), rng.choice([0, 0, 0, 0, 4, 16, -1, -2, -3])
    S = rng.choice([8, 8, 12, 16])
    ls = ["begin %d %d %d %d %d %d %d %d %d %d %d %d" % (rng.randint(0, 1), alone, rng.randint(0, 1), zt, zl, rng.choice([0, 10, 500]), kf, rng.randint(0, 1), rng.randint(0, 3) > 0, S,
                                                       rng.choice([0, 1000, 5000]), rng.choice([0, 1, 4, 8])), "start"]
    mount = None
    if rng.random() < .8:
        mount = rot(rng)
        ls.append("mount " + mount)
    ls.append("wait 0.3")
    if alone:
        for k in range(rng.randint(5, 20)):
            r = rng.random()
            if r < .15:
                ls.append("resetz %d" % rng.randint(-16, 16))
            elif r < .3:
                ls.append("mount" if mount else "mount " + rot(rng))
                mount = None if mount else "x"
            else:
                ls.append("imu %d %s %d %d %d" % (k, rot(rng), rng.randint(-40, 40), rng.randint(-40, 40), rng.randint(-40, 40)))
            # a lookup without transform blocks the node for 0.1 s
            ls.append("wait %.3f" % ((0 if mount else .2) + rng.choice([.003, .007, .013, .033, .05, .11, .215])))
        return ls
    t, p, q = rng.randint(1, 50), [rng.randint(-20, 20), rng.randint(-20, 20), rng.randint(-8, 8)], rot(rng)
    same = rng.random() < .3      # wheel attitude and IMU attitude agree
    level = rng.random() < .3
    slow = rng.random() < .3
    for _ in range(rng.randint(6, 30)):
        t += rng.choice([1, 2, 2, 4, 8, 16, 40, rng.choice([100, 300])])
        if rng.random() < .8:
            p = [p[0] + rng.randint(-6, 6), p[1] + rng.randint(-6, 6), p[2] + (0 if level else rng.randint(-2, 2))]
        if rng.random() < .3:
            q = rot(rng)
        wo = rng.choice([0, 0, S - 2, S, S + 4, 2 * S] + ([] if slow else [3 * S, 3 * S + 4, 64, 80])) * rng.choice([-1, 1])
        if 0 < abs(wo) - S < 4:
            wo = 0
        wi = rng.choice([wo, wo, wo + rng.randint(-12, 12), wo // 2, -wo // 2, rng.randint(-20, 20)])
        if abs(wo) < 32:
            wi = max(wo - 12, min(wo + 12, wi))
        w = max(wo - 48, min(wo + 48, wi)) or 3      # a gyro of exactly zero may contradict the wheels by rounding
        o = "odom %d %d %d %d %s %d %d" % (t, p[0], p[1], p[2], q, wo, rng.randint(-20, 20))
        m = "imu %d %s %d %d %d" % (t, q if same else rot(rng), rng.choice([w, -w]), rng.choice([-1, 1]) * rng.randint(1, 20), w)
        r = rng.random()
        pair = [o, m] if r < .45 else [m, o]
        lost = rng.random()
        if lost < .06:
            pair = [o] if rng.random() < .5 else [m]
        ls.append(pair[0])
        if rng.random() < .3:
            ls.append("wait 0.01")
        ls += pair[1:]
        ls.append("wait %g" % (.02 if mount else .2))
        if len(pair) == 1:
            # the next pair is complete
            t += 3
            ls += ["odom %d %d %d %d %s %d 0" % (t, p[0], p[1], p[2], q, wo), "imu %d %s 2 -3 %d" % (t, q, w), "wait %g" % (.02 if mount else .2)]
        if rng.random() < .1:
            ls.append("mount" if mount else "mount " + rot(rng))
            mount = None if mount else "x"
        if rng.random() < .12:
            ls += ["wait 0.02", "resetz %d" % rng.randint(-16, 16)]
        ls.append("wait 0.02")
    return ls


def run(c):
    cf = lambda **k: "[" + ", ".join("%s |-> %s" % x for x in k.items()) + "]"
    base = dict(fixed="TRUE", zt="0", kf="FALSE", neg="FALSE", S="8", sp="1000", ptc="4")
    cfgs = "{" + ", ".join(cf(**dict(base, **x)) for x in ({}, {"fixed": "FALSE"}, {"kf": "TRUE"}, {"kf": "TRUE", "neg": "TRUE", "sp": "0"}, {"zt": "2"})) + "}"
    Z, X = "<<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>", "<<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>"
    c.mc("TrackOdom", "SPECIFICATION MSpec\nINVARIANTS Both Follows InRange Shrinks\nPROPERTIES Rigid Held Decays\n",
         {"MPlaces": c.pick("{<<0, 0, 0>>, <<2, 1, 0>>}", "{<<0, 0, 0>>, <<2, 1, 0>>, <<0, 1, 3>>}"), "MRots": "{Id, %s, %s}" % (Z, X), "MTurns": c.pick("{0, 32}", "{0, 32, -16}"), "MCfgs": cfgs, "MMax": c.pick("3", "4")},
         min_states=1000, workers=8, timeout=1500)
    exe = c.node("track_odometry", "odom_driver.cpp", "track_odometry/src/track_odometry.cpp", extra=["track_odometry/src/tf_projection.cpp"])
    c.run_scripts(exe, [sum((episode(c.rng) for _ in range(10)), []) for _ in range(c.pick(24, 300))], "TrackOdomTrace",
                  {"MPlaces": "{}", "MRots": "{}", "MTurns": "{}", "MCfgs": "{}", "MMax": "0"}, name="track_odometry")
    c.assumptions += ["wheel odometry and IMU samples of one instant carry the same stamp (the approximate pairing of message_filters is a stand-in)"]
