"""C26: recording, saving, loading and editing of paths."""
import os
import vlib
NOTE = ("Recorder, saver and server with their files are one TLA+ model (exhaustive for short paths); the three unmodified nodes run one after another on the same scratch "
        "files under random histories, and every published path, marker set, status, service answer and file content is checked against the model.")
CONSTS = {"MPlaces": "{}", "MNames": "{}", "MMax": "0"}
T = "trajectory_tracker/src/trajectory_"


def build(c):
    return c.node("store", "store_driver.cpp", T + "recorder.cpp", defines=['%s_SRC="%s"' % (k, os.path.join(vlib.REPO, T + f)) for k, f in
                  (("REC", "recorder.cpp"), ("SAV", "saver.cpp"), ("SRV", "server.cpp"))])


def pose(r, near=None, s=60):
    if near:
        return [near[0] + r.randint(-s, s), near[1] + r.randint(-s, s), r.randint(-3, 3), r.randrange(16)]
    return [r.randint(-200, 200), r.randint(-200, 200), r.randint(-9, 9), r.randrange(16)]


def st(v):
    return " ".join(map(str, v))


def recorder(r):
    n = r.choice([0, 1, 4, 10])
    ls = ["begin rec %d" % r.randint(0, 1), "interval %d" % n]
    if r.random() < .3:
        ls.append("store")
    ls.append("start")
    p = pose(r)
    if r.random() < .3:
        ls.append("wait .5")
    for _ in range(r.randint(5, 25)):
        k = r.random()
        if k < .7:
            p = pose(r, p, r.choice([0, 1, n + 1, n, 2 * n + 3, 40]))
            if r.random() < .3:        # exactly around the interval
                p[0] += n
            ls.append("pose " + st(p))
        elif k < .8:
            ls.append("clear")
        elif k < .88:
            ls.append("nopose")
        ls.append("wait %s" % r.choice([0, .01, .03, .3]))
        if r.random() < .5:
            ls += ["wait .5", "settled"]
    return ls + ["wait .5", "settled"]


def saver(r):
    ls = ["begin sav %d" % r.randint(0, 1), "file %s" % r.choice(["a", "a", "b", "b", "x"]), "start", "wait %s" % r.choice([.05, .5])]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        ls.append("path " + " ".join(st(pose(r)) for _ in range(r.choice([0, 1, 2, 5, 9, 14, 30]))))
        if r.random() < .4:
            ls.append("wait %s" % r.choice([.05, .5]))
    return ls + ["wait 1"]


def server(r):
    ls = ["begin srv %d" % r.randint(0, 1)]
    if r.random() < .5:
        ls.append("file " + r.choice("abc"))
    if r.random() < .35:
        ls.append("filter %d" % r.choice([1, 2, 4, 8, 20]))
    ls.append("start")
    for _ in range(r.randint(3, 20)):
        k = r.random()
        if k < .3:
            ls.append("load %s %d" % (r.choice(["a", "a", "b", "b", "b", "c"]), r.randint(-3, 9)))
        elif k < .9:
            e = r.choice([1, 1, 5, 2, 2, 2, 4, 0, 3])
            ls.append("fb %d %d %d %s" % (r.choice([0, 0, 0, 1, 1, 2, 3, 4, 8]), e, r.choice([1, 2, 2]) if e == 2 else r.choice([0, 1, 2]), st(pose(r))))
        ls.append("wait %s" % r.choice([0, .05, .3]))
    return ls + ["wait .5", "settled"]


def script(r):
    ls = []
    for _ in range(12):
        ls += r.choice([recorder, saver, saver, server, server])(r)
    return ls


def run(c):
    c.mc("TrajStore", "SPECIFICATION MSpec\nINVARIANTS Spaced Follows Matching NoFileNoPath\nPROPERTY OnePose\n",
         {"MPlaces": c.pick("{0, 1, 4}", "{0, 1, 2, 4}"), "MNames": '{"a", "b"}', "MMax": "2"}, min_states=1000, workers=8, timeout=850)
    exe = build(c)
    c.run_scripts(exe, [script(c.rng) for _ in range(c.pick(24, 240))], "TrajStoreTrace", CONSTS)
    c.assumptions.append("files hold complete paths written by trajectory_saver; the interactive marker server drops feedback for markers it does not show, as the original does")
