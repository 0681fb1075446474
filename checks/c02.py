"""C02: grid storage. Spec GridMap (exhaustive small instance) + scripts (TLC behaviours and random) replayed on
the real storage class in several instantiations + trace validation."""
import os
import vlib

INC = [vlib.REPO + "/planner_cspace/include"]
NOTE = ("Design exhaustively checked on a small instance; the code is bound by trace validation of model-generated and "
        "random operation histories (full cell dumps) on several template instantiations; trusts TLC and the driver.")
KINDS = {"c324": 2, "i322v": 2, "f3220": 2, "c3240": 2, "c3280v": 2, "c321": 2, "i338": 3, "i304": 0}


def rp(rng, sz):
    return [rng.randrange(s) for s in sz]


def rbox(rng, sz):
    lo, hi = [], []
    for s in sz:
        a, b = rng.randrange(s), rng.randrange(s)
        if rng.random() < 0.9 and a > b:
            a, b = b, a
        lo.append(a)
        hi.append(b)
    return lo, hi


def episode(rng, kind, nops, sizes):
    out = ["begin " + kind]
    size, full = {}, {}
    def emit(*a):
        out.append(" ".join(str(x) for t in a for x in (t if isinstance(t, (list, tuple)) else [t])))
    val = lambda: rng.randrange(-9, 101)
    for i in range(2):
        sz = rng.choice(sizes)
        emit("reset", i, sz)
        size[i] = sz
        emit("clear", i, val())
        full[i] = True
    for _ in range(nops):
        i, j = rng.sample(sorted(size), 2)
        k = rng.choice("reset write write write write clear clrpos clrpart clrpart copy shift shift assign read valid valid dump".split())
        if k == "reset":
            if rng.random() < 0.4:
                size[i] = rng.choice(sizes)
                emit("reset", i, size[i])
                if rng.random() < 0.8:
                    emit("clear", i, val())
                    full[i] = True
                else:
                    full[i] = False
        elif k == "write":
            for _ in range(rng.randrange(1, 4)):
                emit("write", i, rp(rng, size[i]), val())
        elif k == "clear":
            emit("clear", i, val())
            full[i] = True
        elif k == "clrpos":
            if full[i]:
                emit("clrpos", i, val())
        elif k == "clrpart":
            lo, hi = rbox(rng, size[i])
            emit("clrpart", i, val(), lo, hi)
        elif k == "copy":
            sz = [min(a, b) for a, b in zip(size[i], size[j])]
            lo, hi = rbox(rng, sz)
            emit("copy", i, j, lo, hi)
            full[i] = full[i] and full[j]
        elif k == "shift":
            lo, hi = rbox(rng, size[j])
            if any(h < l for l, h in zip(lo, hi)):
                continue
            ext = [h - l + 1 for l, h in zip(lo, hi)]
            if any(e > s for e, s in zip(ext, size[i])):
                hi = [l + min(e, s) - 1 for l, e, s in zip(lo, ext, size[i])]
                ext = [h - l + 1 for l, h in zip(lo, hi)]
            d = [rng.randrange(s - e + 1) for s, e in zip(size[i], ext)]
            emit("shift", i, d, j, lo, hi)
            full[i] = full[i] and full[j]
        elif k == "assign":
            emit("assign", i, j)
            size[i], full[i] = size[j], full[j]
            emit("write", j, rp(rng, size[j]), val())
            emit("dump", i)
        elif k == "read":
            emit("read", i, rp(rng, size[i]))
        elif k == "valid":
            emit("valid", i, [rng.randrange(-3, s + 3) for s in size[i]], rng.randrange(0, 4))
            emit("valid", i, [rng.choice([-1, 0, 1, s - 2, s - 1, s, s + 1]) for s in size[i]], rng.randrange(0, 3))
        elif k == "dump":
            emit("dump", i)
    emit("dump", 0)
    emit("dump", 1)
    return out


def run(c):
    c.mc("GridMap", "SPECIFICATION Spec\nINVARIANTS TypeOK ValOK\nPROPERTY OneMap\n",
         {"Ids": "{1, 2}", "Vals": "{-1, 0, 3}", "Sizes": "{<<1,1,1>>, <<2,1,1>>, <<1,1,2>>}"},
         name="GridMap: 2 maps, 3 sizes, 3 values", min_states=50)
    exe = c.compile("gridmap", ["gridmap_driver.cpp"], INC, opt="-O1", flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
    scripts = []
    # model-generated behaviours
    sizes = "{" + ", ".join("<<%d,%d,%d>>" % (x, y, z) for x in (1, 3, 5, 9) for y in (2, 4, 5, 8) for z in (1, 3)) + "}"
    beh = c.sim("GridMapSim", "SPECIFICATION SSpec\nINVARIANT Emit\n", consts={"Ids": "{1, 2}", "Vals": "{-3, 0, 1, 7, 50, 100}", "Depth": "25", "Sizes": sizes},
                num=c.pick(40, 400), depth=26)
    lines = []
    for n, h in enumerate(beh):
        kind = ["c324", "i322v", "f3220", "i304", "i338", "c321"][n % 6]
        lines.append("begin " + kind)
        for k, op in enumerate(h):
            lines.append(" ".join(str(x) for x in op))
            if k % 5 == 4 or k == len(h) - 1:
                lines += ["dump 1", "dump 2"] if k > 3 else []
    if lines:
        scripts.append(lines)
    small = [[x, y, z] for x in range(1, 10) for y in range(1, 10) for z in range(1, 5)]
    mid = [[x, y, z] for x in (1, 31, 32, 33, 40) for y in (1, 5, 31, 32, 33) for z in (1, 2, 3)]
    big = [[x, y, z] for x in (1, 2, 63, 64, 65, 70) for y in (1, 3, 64, 66) for z in (1, 2)]
    huge = [[x, y, z] for x in (1, 2, 127, 128, 129, 131) for y in (1, 2, 129) for z in (1,)]
    for rep in range(c.pick(6, 40)):
        ls = []
        for e in range(c.pick(12, 30)):
            kind = c.rng.choice(["c324", "i322v", "c321", "i338", "i304", "f3220", "c3240"])
            ls += episode(c.rng, kind, 30, small)
        scripts.append(ls)
    for rep in range(c.pick(2, 10)):
        scripts.append(episode(c.rng, "f3220", 14, mid) + episode(c.rng, "c3240", 10, big) + episode(c.rng, "c3280v", 8, huge))
    c.run_scripts(exe, scripts, "GridMapTrace", {"Ids": "{1}", "Vals": "{0}", "Sizes": "{}"})
    c.assumptions += ["fresh storage content after a resize is unspecified until written",
                      "instantiations: %s" % ", ".join(KINDS)]
