"""Shared machinery of C12, C13 and C14: random layer configurations and message histories for the costmap_3d node."""
import json, math
import vlib

CONSTS = {"N": "1", "Vals": "{0}", "WinW": "1", "Tmpl": "[r |-> 0, c |-> <<<<100>>>>]", "Over2": "FALSE"}


def range_of(L):
    if L["kind"] not in ("footprint", "plain"):
        return 0
    r = math.sqrt(max(x * x + y * y for x, y in L["foot"])) if L["kind"] == "footprint" else 0
    return math.ceil((r + L["exp"] + L["spr"]) / 16.0 - 1e-9)


FOOTS = [[[-12, -8], [-12, 8], [20, 8], [20, -8]], [[-20, -4], [-20, 4], [28, 4], [28, -4]], [[-8, -8], [-8, 8], [8, 8], [8, -8]],
         [[24, 0], [-12, 12], [-12, -12]], [[-4, -4], [-4, 4], [4, 4], [4, -4]], [[-16, -4], [-16, 20], [0, 4], [24, 4], [24, -4]],
         [[-10, -36], [-10, 36], [10, 36], [10, -36]]]


def layer(rng, name, kind, small):
    L = dict(name=name, kind=kind, overwrite=rng.random() < .4, exp=rng.choice([0, 0, 4, 8, 16, 20]), spr=rng.choice([0, 0, 12, 16, 32]), min=rng.choice([0, 0, 10, 30]),
             keep=False, foot=rng.choice(FOOTS[:5] if small else FOOTS), cost=rng.choice([0, 50, 100, 7]))
    if kind == "footprint":
        L["keep"] = rng.random() < .25
    if kind == "plain":
        L["foot"] = [[0, 0]]
    return L


TYPES = {"footprint": "Costmap3dLayerFootprint", "plain": "Costmap3dLayerPlain", "stop": "Costmap3dLayerStopPropagation", "unknown": "Costmap3dLayerUnknownHandle"}


def params(L):
    d = {"name": L["name"], "type": TYPES[L["kind"]], "overlay_mode": "overwrite" if L["overwrite"] else "max"}
    if L["kind"] in ("footprint", "plain"):
        d.update(linear_expand=L["exp"] / 128.0, linear_spread=L["spr"] / 128.0, linear_spread_min_cost=L["min"])
        if L["keep"]:
            d["keep_unknown"] = True
    if L["kind"] == "footprint":
        d["footprint"] = [[x / 128.0, y / 128.0] for x, y in L["foot"]]
    if L["kind"] == "unknown":
        d["unknown_cost"] = L["cost"]
    return d


def flo(x):
    return json.dumps(x)


def grid(rng, w, h, dense, lethal=False):
    vals = [0, 0, 0, -1, 100, 100, rng.choice([30, 60, 99])]
    out = []
    p = rng.choice([.08, .2, .5]) if dense is None else dense
    for _ in range(w * h):
        out.append(rng.choice(vals[3:]) if rng.random() < p else 0)
    if rng.random() < .2:
        x = rng.randrange(w)
        for y in range(h):
            out[y * w + x] = 100
    if rng.random() < .1:
        out = [-1 if v == 0 else v for v in out]
    return out


def msg(op, topic, probe, frame, w, h, ox, oy, data):
    return "%s %s %d %s %d %d %d %d %s" % (op, topic, probe, frame, w, h, ox, oy, " ".join(map(str, data)))


def episode(rng, big=False):
    r = rng.random()
    root = layer(rng, "root", "footprint", not big)
    single = r < .2
    angle = rng.choice([4, 8, 16]) if big else rng.choice([2, 4, 4, 8])
    if single:
        L = dict(root, name="map_overlay", overwrite=rng.random() < .5)
        root = dict(root, overwrite=False, keep=False)
        L["keep"] = False
        layers = [L]
        stat = []
    else:
        root = dict(root, overwrite=False, keep=False)
        kinds = ["footprint"] * 5 + ["plain"] * 3
        stat = [layer(rng, "st%d" % k, rng.choice(kinds + ["unknown", "stop"]), True) for k in range(rng.choice([0, 0, 1, 1, 2]))]
        layers = [layer(rng, "ov%d" % k, rng.choice(kinds + (["unknown", "stop"] if rng.random() < .15 else [])), True) for k in range(rng.choice([1, 1, 2, 2, 3]))]
    if any(L["kind"] == "stop" for L in stat + layers):
        for L in stat + layers:
            if L["kind"] == "unknown":
                L.update(kind="plain", foot=[[0, 0]])
    early = not single and rng.random() < .25
    if early:
        # overlays received before the map: no template has to be learned first
        stat = []
        for L in layers:
            if L["kind"] == "footprint":
                L.update(kind="plain", keep=False)
            L.update(exp=0, spr=0, foot=[[0, 0]])
    if big:
        stat, layers = stat[:1], layers[:1]
    allL = stat + [dict(name="out", kind="out", overwrite=False, exp=0, spr=0, min=0, keep=False, foot=[[0, 0]], cost=0)] + layers
    cfg = dict(angle=angle, root=root, layers=allL)
    need = max([2 * range_of(L) + 3 for L in [root] + allL])
    n = max(need, rng.randint(6, 10))
    h = max(need, n + rng.randint(-2, 2))
    w = n
    ls = ["begin %d %s" % (rng.randint(0, 1), json.dumps(cfg, separators=(",", ":")))]
    p = "param /costmap_3d/"
    ls += [p + "ang_resolution %d" % angle, p + "footprint " + json.dumps([[x / 128.0, y / 128.0] for x, y in root["foot"]]),
           p + "linear_expand %s" % flo(root["exp"] / 128.0), p + "linear_spread %s" % flo(root["spr"] / 128.0), p + "linear_spread_min_cost %d" % root["min"]]
    if stat:
        ls.append(p + "static_layers " + json.dumps([params(L) for L in stat]))
    if single:
        ls.append(p + "overlay_mode " + ('"overwrite"' if layers[0]["overwrite"] else '"max"'))
    else:
        ls.append(p + "layers " + json.dumps([params(L) for L in layers]))
    ls.append("start")
    ox, oy = rng.choice([(0, 0), (rng.randint(-30, 30), rng.randint(-30, 30))])
    topics = [L for L in allL if L["kind"] != "out"]
    far = lambda L: msg("ov", L["name"], 0, "map", 1, 1, ox - 100, oy - 100, [0])
    one = [0] * (w * h)
    one[(h // 2) * w + w // 2] = 100
    if early:
        for _ in range(rng.randint(1, 3)):
            L = rng.choice(layers)
            ww, hh = rng.randint(1, 6), rng.randint(1, 6)
            ls.append(msg("ov", L["name"], 0, "map" if rng.random() < .9 else "other", ww, hh, ox + rng.randint(-ww, w), oy + rng.randint(-hh, h), grid(rng, ww, hh, None)))
    # the template of the lowest layer, then of each layer above it
    ls.append(msg("base", "map", 1, "map", w, h, ox, oy, one))
    ls.append(msg("base", "map", 0, "map", w, h, ox, oy, [0] * (w * h)))
    for i, L in enumerate(allL):
        if L["kind"] not in ("footprint", "plain") or (early and range_of(L) == 0):
            continue
        ls.append(msg("ov", L["name"], 1, "map", 1, 1, ox + w // 2, oy + h // 2, [100]))
        ls.append(far(L))
    for _ in range(rng.randint(6, 16) if not big else rng.randint(3, 6)):
        q = rng.random()
        if q < .16:
            if rng.random() < .3:
                w, h = max(need, w + rng.randint(-2, 2)), max(need, h + rng.randint(-2, 2))
                ox, oy = ox + rng.randint(-3, 3), oy + rng.randint(-3, 3)
            ls.append(msg("base", "map", 0, "map", w, h, ox, oy, grid(rng, w, h, None)))
        elif q < .22:
            ls.append(far(rng.choice(topics)))
        else:
            L = rng.choice(topics)
            if rng.random() < .7:
                ww, hh = rng.randint(1, 6), rng.randint(1, 6)
                x, y = ox + rng.randint(-ww, w), oy + rng.randint(-hh, h)
            else:
                ww, hh = rng.randint(1, w + 6), rng.randint(1, h + 6)
                x, y = ox + rng.randint(-6, 6), oy + rng.randint(-6, 6)
            ls.append(msg("ov", L["name"], 0, "map" if rng.random() < .95 else "other", ww, hh, x, y, grid(rng, ww, hh, None)))
    return ls


def scripts(rng, nfiles, per, bigs=0):
    out = []
    for k in range(nfiles):
        ls = []
        for j in range(per):
            ls += episode(rng, big=j < bigs)
        out.append(ls)
    return out


def build(c):
    return c.node("costmap", "costmap_driver.cpp", "costmap_cspace/src/costmap_3d.cpp",
                  defines=['NODE_SRC2="%s"' % (vlib.REPO + "/costmap_cspace/src/costmap_3d_layers.cpp")])


def model(c):
    for over in ("FALSE", "TRUE"):
        c.mc("Costmap", "SPECIFICATION Spec\nINVARIANTS Exact Sound ConsumerExact\nPROPERTY UpdateExact\n",
             {"N": str(c.pick(3, 4)), "Vals": "{-1, 0, 100}" if over == "TRUE" or c.tier == "thorough" else "{0, 100}", "WinW": "1", "Tmpl": "[r |-> 1, c |-> <<<<0,0,0,50,100,100,0,0,0>>>>]", "Over2": over},
             name="Costmap layers over2=%s" % over, min_states=100, timeout=3000, workers=8)


def run(c, claim, bigs):
    model(c)
    exe = build(c)
    c.run_scripts(exe, scripts(c.rng, c.pick(16, 160), c.pick(4, 6), bigs), "CostmapTrace", dict(CONSTS, Claim='"%s"' % claim), name="costmap", tlc_timeout=1500)
    c.assumptions.append("overlay maps have the resolution of the base map; cell values are -1..100")
