"""C01: grid search."""
import heapq, itertools
import vlib
NOTE = ("The search algorithm (batched fetch, snapshot evaluation, per-worker merge) is model-checked on all small graphs; the code is "
        "bound by validating recorded searches on random grids against reachability and shortest cost computed in TLA+.")
INC = [vlib.REPO + "/planner_cspace/include"]
INFC = 1000000


def nbr(kind, size, c, o):
    nc = {"32": 2, "20": 0, "22": 3}[kind]
    n = [a + b for a, b in zip(c, o)]
    for k in range(3):
        if k >= nc:
            n[k] %= size[k]
        elif not 0 <= n[k] < size[k]:
            return None
    return tuple(n)


def episode(rng, big=False):
    kind = rng.choice(["32", "32", "20", "22"])
    hi = 5 if not big else 7
    if kind == "32":
        size = [rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, 4)]
    elif kind == "20":
        size = [rng.randint(2, hi), rng.randint(2, hi), 1]
    else:
        size = [rng.randint(1, hi + 1), rng.randint(1, hi + 1), 1]
    dz = range(-1, 2) if kind == "32" else (0,)
    cand = [o for o in itertools.product(range(-2, 3), range(-2, 3), dz) if o != (0, 0, 0)]
    if rng.random() < 0.6:
        cand = [o for o in cand if sum(map(abs, o)) <= 2]
    rng.shuffle(cand)
    offs, seen = [], set()
    for o in cand:
        nc = {"32": 2, "20": 0, "22": 3}[kind]
        key = tuple(o[k] % size[k] if k >= nc else o[k] for k in range(3))
        if key in seen or key == (0, 0, 0):
            continue
        seen.add(key)
        offs.append(o)
        if len(offs) >= rng.choice([3, 4, 6, 8, 10]):
            break
    if not offs:
        offs = [(1, 0, 0)]
    cells = list(itertools.product(range(size[0]), range(size[1]), range(size[2])))
    mode = rng.random()
    pf = rng.choice([0.0, 0.1, 0.2, 0.45, 0.65])
    lo, up = rng.choice([(1, 2), (1, 3), (1, 9), (2, 9), (5, 40)])
    costs = []
    for c in cells:
        costs.append([-1 if rng.random() < pf else (INFC if rng.random() < 0.03 else rng.randint(lo, up)) for o in offs])
    goal = rng.choice(cells)
    index = {c: i for i, c in enumerate(cells)}
    # distance to goal (for the estimate)
    rev = {c: [] for c in cells}
    for i, c in enumerate(cells):
        for k, o in enumerate(offs):
            n = nbr(kind, size, c, o)
            if n is not None and 0 <= costs[i][k] < INFC:
                rev[n].append((c, costs[i][k]))
    d = {goal: 0}
    q = [(0, goal)]
    while q:
        x, c = heapq.heappop(q)
        if d[c] < x:
            continue
        for p, w in rev[c]:
            if x + w < d.get(p, INFC):
                d[p] = x + w
                heapq.heappush(q, (x + w, p))
    hm = rng.choice(["zero", "half", "half", "full", "full", "fullinf"])
    starts_pool = [c for c in cells]
    h = []
    for c in cells:
        if c in d:
            h.append({"zero": 0, "half": d[c] // 2, "full": d[c], "fullinf": d[c]}[hm])
        else:
            h.append(INFC if hm == "fullinf" else 0)
    flat = lambda xs: " ".join(str(v) for x in xs for v in (x if isinstance(x, (list, tuple)) else [x]))
    out = ["begin %s %s %d %d %s %s %s" % (kind, flat(size), rng.randrange(2), len(offs), flat(offs), flat(costs), flat(h))]
    for s in range(rng.randint(3, 7)):
        ns = rng.choice([1, 1, 1, 2, 3])
        if rng.random() < 0.03:
            ns = 0
        st = []
        for _ in range(ns):
            c = rng.choice(starts_pool)
            if h[index[c]] == INFC:      # an infinite estimate at a start is outside the search's contract
                c = next((x for x in cells if h[index[x]] < INFC), c)
            if h[index[c]] == INFC:
                continue
            z = list(c)
            if kind == "32" and rng.random() < 0.2:
                z[2] += rng.choice([-1, 1]) * size[2]
            st.append(z + [rng.randint(1, 5) if rng.random() < 0.1 else 0])
        batch = rng.choice([1, 1, 1, 1, 1, 2, 4, 8])
        threads = rng.choice([1, 1, 2, 4])
        leave = 0 if rng.random() < 0.9 else rng.randint(1, 5)
        interval = rng.choice([-1, -1, 0])
        abort = rng.randint(1, 4) if interval == 0 and rng.random() < 0.3 else 0
        g = goal
        if not any(st) and ns:
            continue
        # an estimate for the original goal must stay admissible: other goals only with zero estimates
        if hm == "zero" and rng.random() < 0.6:
            g = rng.choice(cells)
        if kind == "32" and rng.random() < 0.2:
            g = (g[0], g[1], g[2] + rng.choice([-1, 1, 2]) * size[2])
        out.append("search %d %d %d %d %d %d %d %s %s" % (batch, threads, leave, rng.randrange(2), interval, abort, len(st), flat(st), flat(g)))
    return out


def run(c):
    edges = "{[p \\in E |-> f[p]] : f \\in [E -> {0, 1, 3}]}"
    E = "{<<1,2>>,<<1,3>>,<<1,4>>,<<2,3>>,<<2,4>>,<<3,2>>,<<3,4>>}"
    base = "SPECIFICATION Spec\nINVARIANTS Sound Complete Optimal\n"
    c.mc("AStar", base, {"Nodes": "1..4", "Goal": "4", "StartSets": "{{1}, {1, 2}}", "MaxH": "1" if c.tier == "quick" else "3", "Batches": "{1, 2}",
                         "EdgeSets": edges.replace("E", E)}, workers=8, name="AStar: 4 cells, all edge subsets with costs 1/3, batch 1-2", timeout=800)
    E3 = "{<<1,2>>,<<1,3>>,<<2,3>>,<<2,1>>}"
    c.mc("AStar", base + "PROPERTY Terminates\n", {"Nodes": "1..3", "Goal": "3", "StartSets": "{{1}, {1, 2}}", "MaxH": "2", "Batches": "{1, 2, 3}",
                         "EdgeSets": edges.replace("E", E3)}, workers=4, name="AStar: 3 cells, termination")
    exe = c.compile("astar", ["astar_driver.cpp"], INC, libs=["-lboost_chrono", "-lboost_system"])
    scripts = []
    for _ in range(c.pick(16, 80)):
        ls = []
        for e in range(c.pick(22, 60)):
            ls += episode(c.rng, big=e % 2 == 0)
        scripts.append(ls)
    c.run_scripts(exe, scripts, "AStarTrace", env={"OMP_NUM_THREADS": "4"})
    c.assumptions += ["optimality is claimed for batch size 1, equal start costs and consistent estimates only",
                      "no queue size limit"]
