"""What each property's check runs: configurations of the harnesses. cost orders jobs (longest first)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
ALL = "astar best_first bfs dfs dijkstra eidastar eidbest_first eiddfs flood fringe gbest_first gbfs gdfs gstar idastar idbest_first iddfs mgstar osmastar smastar".split()
OPTIMAL = "astar bfs dijkstra eidastar eiddfs fringe gbfs gstar idastar iddfs mgstar".split()

def picture(rows):
    """Maze drawing -> (width, height, pattern, free): '.' open, '#' blocked, '?' symbolic; 's'/'e' open start/end."""
    w, h = len(rows[0]), len(rows); pat = free = 0; pos = {}
    for y, r in enumerate(rows):
        for x, c in enumerate(r):
            i = x + w * y
            if c in ".se": pat |= 1 << i
            if c == "?": free |= 1 << i
            if c in "se": pos[c] = i
    return dict(d0=w, d1=h, pattern=pat, free=free, s=pos["s"], e=pos["e"])
SERPENT = picture(["s.....", "?###??", "......", "??###?", ".?..?.", "?##?#e"])
ROOMS = picture(["...?...#", ".s.?...#", "...#..??", "?#?##?##", "...#....", "...?..e.", "...#....", "##??#..."])

def scaffold(free):
    """4x4x4: beams along the even lines of all three dimensions; every third of the cells between two crossings is symbolic."""
    pat = fr = k = 0
    for i in range(64):
        odd = (i & 1) + (i >> 2 & 1) + (i >> 4 & 1)
        if odd <= 1: pat |= 1 << i
        if odd == 1 and i % 4 < 3 and i // 4 % 4 < 3 and i // 16 < 3:
            k += 1
            if k % 3 == 0 and free: fr |= 1 << i; free -= 1
    return dict(pattern=pat, free=fr, s=0, e=42)
def typed(j, **kw): return dict(j, defs=j["defs"] + "".join(" -D%s=%s" % x for x in kw.items()))
def solve(name, algo, dims, params, cell="char", rev=1, oct=0, lazy=0, noclean=1, heur=None, pool=4096, **kw):
    defs = "-DALGO=%s -DKD=%d -DCELL=%s -DREV=%d -DOCT=%d -DLAZY=%d -DNOCLEAN=%d -DHEUR=%s -DPOOL=%d" % (algo, len(dims), cell, rev, oct, lazy, noclean, heur or ("chebyshev" if oct else "manhattan"), pool)
    p = {"d%d" % i: d for i, d in enumerate(dims)}; p.update(params)
    return dict(name="%s %s" % (algo, name), src="solve", defs=defs, params=p, **kw)
def grids(algos, mode, tier):
    """The common sweep over option sets and shapes: each configuration decides every maze (and, where s/e are not fixed, every pair of endpoints)."""
    J = []
    for a in algos:
        m = dict(mode=1 if a == "flood" else mode)
        lz = 0 if mode == 4 and a in ("astar", "gstar", "mgstar") else 1   # an unsorted open list gives up shortest paths
        two = dict(noclean=0)                                         # 2-D, default options, nodes released one by one
        J.append(solve("3x3 all pairs", a, (3, 3), dict(m), cost=4, **two))
        J.append(solve("4x4 corners", a, (4, 4), dict(m, s=0, e=15), cost=5, steps=20000000, **two))
        J.append(solve("6x6 serpent", a, (6, 6), dict(m, **SERPENT), cost=4, steps=60000000, **two))
        J.append(solve("2x3x2 corners bool lazy", a, (2, 3, 2), dict(m, s=0, e=11), cell="bool", rev=0, lazy=lz, noclean=0, pool=64, cost=3))
        J.append(typed(solve("3x3 all pairs, doubles", a, (3, 3), dict(m), heur="euclidean", noclean=0, cost=3), SCALAR="double", INDEX="uint16_t"))
        J.append(typed(solve("2x5 corners, signed, any capacity", a, (2, 5), dict(m, s=9, e=0, capacities=1), cell="int", lazy=lz, cost=2), SCALAR="int", INDEX="int64_t", COORD="int"))
        J.append(typed(solve("3x4 corners, 64 bits", a, (3, 4), dict(m, s=0, e=11), rev=0, noclean=0, pool=64, cost=2), SCALAR="size_t", INDEX="size_t", COORD="size_t"))
        J += [solve("9 in a row", a, (9,), dict(m, s=1, e=7, pattern=0x1ff, free=0x1a4, split=1), cell="bool", rev=0, noclean=0, cost=2), solve("2x2x2x2x2 corners", a, (2, 2, 2, 2, 2), dict(m, s=0, e=31, pattern=0xffffffff, free=0x08124220), lazy=lz, cost=2, steps=100000000),
              solve("4x4x4 scaffold", a, (4, 4, 4), dict(m, **scaffold(3 if a in DEEPENING else 6)), noclean=0, cost=3, steps=200000000)]
        # the smallest and thinnest grids
        J += [solve("1x1", a, (1, 1), dict(m), rev=0, lazy=lz, noclean=0), solve("1x4 all pairs", a, (1, 4), dict(m, capacities=1), noclean=0), solve("4x1 all pairs", a, (4, 1), dict(m), cell="bool", rev=0, noclean=0),
              solve("1x3x2 octile all pairs", a, (1, 3, 2), dict(m), cell="bool", oct=1, lazy=lz, noclean=0), solve("2x1x2 all pairs", a, (2, 1, 2), dict(m), rev=0, noclean=0), solve("2 in a row", a, (2,), dict(m, split=1), noclean=0)]
        if mode == 2: J += [typed(solve("3x3 corners, %s" % w, a, (3, 3), dict(m, s=0, e=8), noclean=0, cost=2), CALL=k) for k, w in ((1, "called with arguments"), (2 + len(a) % 4, "called another way"))]
        if mode == 4 and a == "mgstar": continue                     # not optimal there (see DESIGN.md)
        J.append(solve("3x4 octile far pair", a, (3, 4), dict(m, s=11, e=0), oct=1, rev=0, lazy=lz, noclean=1, pool=64, cost=3))
        J.append(typed(solve("2x4 octile far pair, signed", a, (2, 4), dict(m, s=6, e=1), cell="bool", oct=1, rev=1, noclean=0, cost=2), SCALAR="int", INDEX="int", COORD="int"))
        J.append(solve("3x2x2x2 octile corners", a, (3, 2, 2, 2), dict(m, s=23, e=0, pattern=0xffffff, free=0x1b5ad2 if tier != "quick" else 0x1812c2 if a == "dijkstra" else 0x1952c2, capacity=3), oct=1, noclean=0, cost=3, steps=60000000))
    return J
def big(name, algo, dims, params, cell="char", rev=1, oct=0, lazy=0, noclean=0, pool=4096, more="", **kw):
    """One solver on a maze of several hundred cells of which a few are symbolic."""
    p = dict(d0=dims[0], d1=dims[1], memory_limit=4000); p.update(params); kw.setdefault("steps", 200000000); kw.setdefault("cost", 2); kw.setdefault("t", 150)
    return job("big", "%s %s" % (algo, name), "-DALGO=%s -DCELL=%s -DREV=%d -DOCT=%d -DLAZY=%d -DNOCLEAN=%d -DPOOL=%d%s" % (algo, cell, rev, oct, lazy, noclean, pool, more), p, **kw)
def huge(name, algo, dims, params, first, more="", **kw):
    """As big, with thousands of cells: passes the 8-, 12- and 16-bit boundaries; the symbolic cells come from number `first` on."""
    return big(name, algo, dims, dict(dict(memory_limit=400000), **params, **{"from": first}), more=more + " -DMAXN=%d" % (dims[0] * dims[1]), **dict(dict(steps=4000000000, t=300), **kw))
DEEPENING = ("idastar", "eidastar", "idbest_first", "eidbest_first", "iddfs", "eiddfs")
def large(algos, mode):
    """Mazes of several hundred cells, so that containers, pools and tables grow past their initial sizes (iterative deepening takes exponential time in open halls)."""
    J = []
    for a in algos:
        m = 1 if a == "flood" else mode; lz = 0 if mode == 4 and a in ("astar", "gstar", "mgstar") else 1
        J += [big("17x16 corridors", a, (17, 16), dict(mode=m, free=3, every=3)), big("300x1 row", a, (300, 1), dict(mode=m, kind=1, free=2), rev=0, lazy=lz)]
        if a in ("iddfs", "eiddfs"): continue
        J.append(big("17x16 hall", a, (17, 16), dict(mode=m, kind=1, free=3, e=0xffff), cell="int", rev=0, pool=64))
        if a in DEEPENING: J.append(huge("2000x1 row", a, (2000, 1), dict(mode=m, kind=1, free=2, e=1999), 1900, rev=0, lazy=lz))
        else:
            J += [huge("70000x1 row", a, (70000, 1), dict(mode=m, kind=1, free=2, e=69999), 69000, rev=0, lazy=lz, cost=4), huge("70x70 hall", a, (70, 70), dict(mode=m, kind=1, free=2, e=4899), 2400, rev=0, lazy=lz, noclean=1),
                  huge("70x70 corridors", a, (70, 70), dict(mode=m, kind=0, free=2, every=3), 4500, cell="bool")]
            if mode != 4 or a != "mgstar": J.append(huge("70x70 hall octile", a, (70, 70), dict(mode=m, kind=1, free=2, e=4899), 2400, oct=1, lazy=lz))
        if mode == 4 and a == "mgstar": continue
        J.append(big("17x16 hall octile", a, (17, 16), dict(mode=m, kind=1, free=2), oct=1, rev=0, lazy=lz, pool=64, noclean=1))
        if a not in DEEPENING: J.append(big("16x17 corridors octile, any capacity", a, (16, 17), dict(mode=m, kind=0, free=2, every=4, capacities=1), oct=1, lazy=lz, pool=64, noclean=1))
    return J
def c01(tier): return grids(ALL, 1, tier) + large(ALL, 1)
def c02(tier): a = [a for a in ALL if a != "flood"]; return grids(a, 2, tier) + large(a, 2)
def c03(tier): return grids(OPTIMAL, 4, tier) + large(OPTIMAL, 4)

# ---- helpers ----
def job(src, name, defs, params, **kw):
    return dict(name=name, src=src, defs=defs, params=params, **kw)
def every(tier, quick, thorough=()):
    return list(quick) + (list(thorough) if tier == "thorough" else [])
BV = ["--solver=bv"]
GRAPH = "astar best_first bfs dfs dijkstra flood fringe gbest_first gbfs gdfs gstar idastar idbest_first mgstar osmastar smastar".split()

# ---- C07 / C11: graphs ----
def wg(name, algo, params, rev=1, lazy=0, noclean=0, pool=4096, table=0, **kw):
    return job("wgraph", "%s %s" % (algo, name), "-DALGO=%s -DREV=%d -DLAZY=%d -DNOCLEAN=%d -DPOOL=%d%s" % (algo, rev, lazy, noclean, pool, " -DHTABLE" if table else ""), params, **kw)
def bg(name, algo, params, rev=1, lazy=0, noclean=0, pool=4096, **kw):
    kw.setdefault("steps", 100000000); kw.setdefault("cost", 2)
    return job("biggraph", "%s %s" % (algo, name), "-DALGO=%s -DREV=%d -DLAZY=%d -DNOCLEAN=%d -DPOOL=%d" % (algo, rev, lazy, noclean, pool), params, **kw)
def biggraphs(algos, mode, tier):
    J = []
    for a in algos:
        lz = 0 if mode & 4 and a in ("astar", "gstar") else 1; n = 60 if a == "idastar" else 150
        J += [bg("chain of %d" % n, a, dict(mode=mode, n=n, base=1000, gap=3)), bg("one-way chain of %d, any capacity" % n, a, dict(mode=mode, n=n, choices=2, capacities=1), rev=0, noclean=1, pool=64, lazy=lz)]
        if a in DEEPENING: continue
        J += [typed(bg("chain of 5000", a, dict(mode=mode, n=5000, base=1000, gap=3, choices=2, memory_limit=400000), steps=4000000000, cost=3), MAXN=5000),
              typed(bg("one-way chain of 70000", a, dict(mode=mode, n=70000, oneway=1, choices=2, memory_limit=400000), rev=0, lazy=lz, steps=4000000000, cost=12, t=300), MAXN=70000)]
        if tier == "thorough" or mode == 3: J.append(typed(bg("lattice 60x50", a, dict(kind=1, mode=mode, w=60, h=50, base=300, gap=17, memory_limit=400000), steps=4000000000, cost=20, t=300), MAXN=3000))
        J += [bg("lattice 10x10", a, dict(kind=1, mode=mode, base=300, gap=7)), bg("one-way lattice 17x16", a, dict(kind=1, w=17, h=16, mode=mode, oneway=1), rev=0, lazy=lz)]
    return J
def c07(tier):
    J = biggraphs(("dijkstra", "fringe", "astar", "gstar", "idastar"), 7, tier)
    for a in ("dijkstra", "fringe", "astar", "gstar", "idastar"):
        lz = 0 if a in ("astar", "gstar") else 1                     # an unsorted open list gives up cheapest paths
        m = dict(mode=7)
        J += [wg("2 nodes, all pairs", a, dict(m, n=2, free=1, wmin=0, wmax=3, s=255, e=255)), wg("2 nodes, directed, all pairs", a, dict(m, n=2, free=3, directed=1, wmin=0, wmax=3, s=255, e=255), rev=0)]
        J += [wg("K4, weights 1..7", a, dict(m, n=4, wmax=7), cost=8, t=150),
              wg("every graph of 4 nodes, unit weights, all pairs", a, dict(m, n=4, free=63, wmin=1, wmax=1, s=255, e=255), cost=1),
              wg("every graph of 4 nodes, weights 0..3", a, dict(m, n=4, free=63, wmin=0, wmax=3), noclean=1, cost=10, t=150),
              wg("directed, every graph of 3 nodes, weights 1..15, all pairs", a, dict(m, n=3, free=63, directed=1, s=255, e=255), rev=0, cost=4),
              wg("directed, every graph of 3 nodes, weights 1..7, any consistent heuristic", a, dict(m, n=3, free=63, directed=1, s=0, e=2, wmax=7), lazy=lz, pool=64, table=1, cost=3),
              wg("complete directed, 4 nodes, weights 1..3", a, dict(m, n=4, directed=1, wmax=3), rev=0, cost=10, t=150),
              wg("K4, weights 1..3, any consistent heuristic", a, dict(m, n=4, wmax=3), table=1, cost=4, t=150),
              wg("5 nodes in a ladder, weights 1..3, any consistent heuristic", a, dict(m, n=5, edges=0x2d5, wmax=3), table=1, lazy=lz, cost=16, t=150),
              wg("6 nodes, weights 1..3", a, dict(m, n=6, edges=0x4b33, wmax=3), lazy=lz, noclean=1, cost=10, t=150)]
        J += [typed(wg("K4, weights 1..3 quarters, floating point", a, dict(m, n=4, wmax=3), cost=2), SCALAR="double", INDEX="size_t", UNIT="0.25"),
              typed(wg("directed, every graph of 3 nodes, weights 1..2 halves, floating point, any consistent heuristic", a, dict(m, n=3, free=63, directed=1, s=0, e=2, wmax=2, hmax=2), rev=0, table=1, cost=4), SCALAR="float", UNIT="0.5"),
              typed(wg("every graph of 4 nodes, weights 1..3, 64 bits", a, dict(m, n=4, free=63, wmax=3), noclean=1, cost=4), SCALAR="size_t", INDEX="size_t", COORD="size_t")]
        if a in ("dijkstra", "fringe"):
            J += [wg("K4, weights 1..7, lazy", a, dict(m, n=4, wmax=7), lazy=1, cost=8, t=150), wg("5 nodes in a ladder, weights 1..15, lazy", a, dict(m, n=5, edges=0x2d5), lazy=1, noclean=1, cost=6, t=150),
                  wg("directed, every graph of 3 nodes, weights 0..7, lazy", a, dict(m, n=3, free=63, directed=1, wmin=0, wmax=7, s=0, e=2), rev=0, lazy=1, cost=2)]
        if tier == "thorough":
            J += [wg("K4 weights 1..1000", a, dict(n=4, mode=7, wmax=1000), cost=200, t=3000),
                  wg("every graph of 4 nodes, weights 1..3, all pairs", a, dict(n=4, free=63, wmax=3, s=255, e=255, mode=7), cost=60, t=3000),
                  wg("K5 without the direct edge, weights 1..3", a, dict(n=5, edges=0x3f7, mode=7, wmax=3), cost=300, t=3000),
                  wg("6 nodes, weights 1..15", a, dict(n=6, mode=7, edges=0x4b33, wmax=15), cost=300, t=3000),
                  wg("every graph of 4 nodes, weights 1..3, any consistent heuristic", a, dict(n=4, free=63, wmax=3, mode=7), table=1, cost=60, t=3000),
                  wg("K4, weights 1..15, any consistent heuristic", a, dict(n=4, wmax=15, mode=7), table=1, cost=60, t=3000),
                  wg("directed, every graph of 4 nodes, weights 1..3", a, dict(n=4, free=4095, directed=1, wmax=3, mode=7), rev=0, cost=200, t=3000)]
    return J
def c11(tier):
    J = biggraphs([a for a in GRAPH if a != "flood"], 3, tier)
    for a in GRAPH:
        m = 1 if a == "flood" else 3
        J += [wg("2 nodes, all pairs", a, dict(n=2, free=1, wmin=0, wmax=3, s=255, e=255, mode=m, capacities=1)), wg("2 nodes, directed, all pairs", a, dict(n=2, free=3, directed=1, wmin=1, wmax=3, s=255, e=255, mode=m), rev=0, noclean=1)]
        J += [wg("every graph of 4 nodes, all pairs", a, dict(n=4, free=63, wmin=1, wmax=1, s=255, e=255, mode=m), cost=2),
              wg("directed, every graph of 3 nodes, all pairs", a, dict(n=3, free=63, directed=1, wmin=1, wmax=1, s=255, e=255, mode=m), rev=0, cost=1),
              wg("every graph of 5 nodes, lazy", a, dict(n=5, free=1023, wmin=1, wmax=1, mode=m), lazy=1, pool=64, noclean=1, cost=2)]
        J.append(typed(wg("every graph of 4 nodes, doubles, any capacity", a, dict(n=4, capacities=1, free=63, wmin=3, wmax=3, mode=m), cost=1), SCALAR="double", INDEX="uint16_t", UNIT="0.25"))
        J.append(typed(wg("every graph of 4 nodes, signed", a, dict(n=4, free=63, wmin=1, wmax=1, mode=m, s=255, e=255), rev=0, lazy=1, cost=1), SCALAR="int", INDEX="int", COORD="int"))
        if a != "smastar": J.append(wg("K4 weights 1..7", a, dict(n=4, wmax=7, mode=m), args=BV, cost=6))
        if a != "flood": J.append(job("star", "%s hub with 300 neighbours" % a, "-DALGO=%s" % a, dict(leaves=300), steps=20000000, cost=2))
        if tier == "thorough":
            J += [wg("directed, every graph of 4 nodes", a, dict(n=4, free=4095, directed=1, wmin=1, wmax=1, s=0, e=3, mode=m), rev=0, cost=20),
                  wg("every graph of 6 nodes", a, dict(n=6, free=0x7fff, wmin=1, wmax=1, mode=m), cost=40)]
    J.append(dict(wg("K4 weights 1 7 7 3 6 4", "smastar", dict(n=4, w0=1, w1=7, w2=7, w3=3, w4=6, w5=4, mode=3)), probe=True))
    return J

# ---- C32: heuristic weights and arbitrary heuristics ----
def table(j): return dict(j, defs=j["defs"] + " -DHTABLE")
def c32(tier):
    J = []
    for a in [a for a in ALL if a not in ("dijkstra", "bfs", "dfs", "flood", "gbfs", "gdfs", "iddfs", "eiddfs")]:
        bounded = a in ("astar", "gstar", "fringe", "idastar", "eidastar"); m = 7 if bounded else 3; graph = a in GRAPH
        J += [solve("4x4 corners, heuristic weight 3", a, (4, 4), dict(mode=m, weight=3, s=0, e=15), noclean=0, cost=3, steps=20000000),
              solve("6x6 serpent, heuristic weight 2", a, (6, 6), dict(mode=m, weight=2, **SERPENT), cost=4, steps=60000000),
              solve("3x4 octile, heuristic weight 0", a, (3, 4), dict(mode=7 if a in OPTIMAL and a != "mgstar" else 3, weight=0, s=11, e=0), oct=1, rev=0, cost=2),
              solve("3x4 octile, heuristic weight 2, lazy", a, (3, 4), dict(mode=3 if a in ("astar", "gstar") else m, weight=2, s=11, e=0), oct=1, rev=0, lazy=1, cost=2)]
        if a not in DEEPENING: J += [big("17x16 hall, heuristic weight 3", a, (17, 16), dict(mode=m, kind=1, free=3, e=0xffff, weight=3)), big("17x16 corridors, heuristic weight 2", a, (17, 16), dict(mode=m, free=3, every=3, weight=2), rev=0, noclean=1, pool=64),
                                     huge("70x70 hall, heuristic weight 2", a, (70, 70), dict(mode=m, kind=1, free=2, e=4899, weight=2), 2400, rev=0)]
        if a == "smastar": continue                                  # gives up too early with such heuristics (see DESIGN.md)
        small = a == "idastar"
        J.append(table(solve("2x3 corners, any heuristic" if small else "3x3 corners, any heuristic on the middle cells", a, (2, 3) if small else (3, 3), dict(mode=3, s=0, e=5 if small else 8, hmax=5, hfree=0x16 if small else 0x2a), noclean=0, cost=6, t=120)))
        if graph:
            J += [wg("K4, weights 1..2, any heuristic", a, dict(n=4, wmax=2, anyh=1, hmax=3, mode=3), table=1, args=BV, cost=5, t=150),
                  wg("directed, every graph of 3 nodes, weights 1..3, any heuristic", a, dict(n=3, free=63, directed=1, wmax=3, anyh=1, hmax=7, s=0, e=2, mode=3), table=1, rev=0, lazy=1, cost=2)]
        if graph and not small: J.append(wg("5 nodes in a ladder, weights 1..2, any heuristic", a, dict(n=5, edges=0x2d5, wmax=2, anyh=1, hmax=3, mode=3), table=1, cost=20, t=150))
        if graph and bounded:
            J += [typed(wg("directed, every graph of 3 nodes, heuristic weight %s" % h, a, dict(n=3, free=63, directed=1, wmax=2, hmax=2, halves=k, s=0, e=2, mode=7), table=1, rev=0, cost=4), SCALAR="double", UNIT="0.5") for k, h in ((3, "one and a half"), (1, "a half"))]
            for hw in (0, 2, 3): J += [wg("K4, weights 1..3, heuristic weight %d" % hw, a, dict(n=4, wmax=3, hw=hw, mode=7), table=1, cost=6, t=150),
                                       wg("directed, every graph of 3 nodes, heuristic weight %d" % hw, a, dict(n=3, free=63, directed=1, wmax=7, hw=hw, s=0, e=2, mode=7), table=1, rev=0, cost=3)]
        if tier == "thorough":
            J.append(table(solve("3x3 corners, any heuristic", a, (3, 3), dict(mode=3, s=0, e=8, hmax=3), noclean=0, cost=200, t=3000)))
            if graph and bounded: J += [wg("K4, weights 1..7, heuristic weight 2", a, dict(n=4, wmax=7, hw=2, mode=7), table=1, cost=100, t=3000), wg("5 nodes in a ladder, weights 1..3, heuristic weight 2", a, dict(n=5, edges=0x2d5, wmax=3, hw=2, mode=7), table=1, cost=200, t=3000)]
    return J

# ---- C08: jump point search ----
def jp(name, algo, params, cell="char", rev=1, lazy=0, noclean=0, pool=4096, **kw):
    return job("jps", "%s %s" % (algo, name), "-DALGO=%s -DCELL=%s -DREV=%d -DLAZY=%d -DNOCLEAN=%d -DPOOL=%d" % (algo, cell, rev, lazy, noclean, pool), params, **kw)
def c08(tier):
    J = []
    for a in ("jps", "gjps"):
        J += [jp("3x3 all pairs", a, dict(d0=3, d1=3), cost=8),
              jp("3x3 all pairs, from the other end, lazy", a, dict(d0=3, d1=3), rev=0, lazy=1, noclean=1, pool=64, cost=8),
              jp("4x4 corners", a, dict(d0=4, d1=4, s=0, e=15), cost=15, t=120),
              jp("4x4 inside to corner", a, dict(d0=4, d1=4, s=5, e=15), rev=0, cell="bool", cost=18, t=120),
              jp("6x6 serpent", a, SERPENT, cell="bool", noclean=1, pool=64, cost=10, t=120),
              jp("2x5 all pairs", a, dict(d0=2, d1=5), cost=10, t=120),
              jp("1x1", a, dict(d0=1, d1=1)), jp("1x4 all pairs", a, dict(d0=1, d1=4), lazy=1), jp("4x1 all pairs", a, dict(d0=4, d1=1), cell="bool", rev=0), jp("2x2 all pairs", a, dict(d0=2, d1=2), noclean=1, pool=64),
              typed(jp("3x3 all pairs, signed", a, dict(d0=3, d1=3), cost=8), SCALAR="int", INDEX="int", COORD="int"),
              typed(jp("3x3 all pairs, doubles", a, dict(d0=3, d1=3), rev=0, cost=8), SCALAR="double", INDEX="uint16_t", COORD="int"),
              typed(jp("3x3 all pairs, 64 bits", a, dict(d0=3, d1=3), lazy=1, cost=8), SCALAR="size_t", INDEX="size_t", COORD="size_t"),
              big("17x16 hall", a, (17, 16), dict(mode=7, kind=1, free=6, e=0xffff), oct=1, more=" -DJUMP"), big("16x17 corridors", a, (16, 17), dict(mode=7, kind=0, free=6, every=1, e=0xffff), cell="bool", oct=1, rev=0, more=" -DJUMP", lazy=1, pool=64, noclean=1),
              huge("70x70 hall", a, (70, 70), dict(mode=7, kind=1, free=4), 1400, oct=1, more=" -DJUMP", cost=6), big("21x19 hall, from the middle", a, (21, 19), dict(mode=7, kind=1, free=8, s=199, e=0xffff), oct=1, more=" -DJUMP"), big("16x17 corridors, any capacity", a, (16, 17), dict(mode=7, kind=0, free=3, capacities=1, every=1, e=0xffff), oct=1, more=" -DJUMP"),
              jp("3x3 all pairs, heuristic weight 2", a, dict(d0=3, d1=3, mode=3, weight=2), cost=8), jp("3x3 all pairs, heuristic weight 0", a, dict(d0=3, d1=3, mode=7, weight=0), cost=8)]
        if tier == "thorough":
            J += [jp("4x4 all pairs", a, dict(d0=4, d1=4), cost=300, t=3000), jp("5x4 corners", a, dict(d0=5, d1=4, s=0, e=19), cost=200, t=1800),
                  jp("8x8 rooms", a, ROOMS, cost=30, t=600), jp("2x7 corners", a, dict(d0=2, d1=7, s=0, e=13), cost=50, t=900), jp("7x2 corners", a, dict(d0=7, d1=2, s=0, e=13), cost=50, t=900)]
    return J

# ---- C04: endpoints ----
def en(name, algo, dims, params=(), cell="char", rev=1, oct=0, lazy=0, noclean=0, **kw):
    defs = "-DALGO=%s -DREV=%d -DOCT=%d -DLAZY=%d -DNOCLEAN=%d" % (algo, rev, oct, lazy, noclean); p = dict(params)
    if dims: defs += " -DKD=%d -DCELL=%s" % (len(dims), cell); p.update({"d%d" % i: d for i, d in enumerate(dims)})
    else: defs += " -DGRAPH"
    return job("ends", "%s %s" % (algo, name), defs, p, **kw)
def c04(tier):
    J = []
    for a in ALL + ["jps", "gjps"]:
        o = int(a in ("jps", "gjps"))
        J.append(en("3x2 any coordinates", a, (3, 2), oct=o, cost=2))
        if not o: J += [en("2x3x2 any coordinates", a, (2, 3, 2), rev=0, lazy=1, noclean=1, cell="bool", cost=2), en("4 any coordinates, octile", a, (4,), oct=1, cell="int", cost=1)]
        J += [typed(en("3x2 any coordinates, signed", a, (3, 2), oct=o, cost=2), SCALAR="int", INDEX="int", COORD="int"),
              typed(en("3x2 any coordinates, doubles and signed coordinates", a, (3, 2), oct=o, rev=0, lazy=1, noclean=1, cost=2), SCALAR="double", INDEX="uint16_t", COORD="int"),
              typed(en("3x2 any coordinates, 64 bits", a, (3, 2), oct=o, cell="bool", cost=2), SCALAR="size_t", INDEX="size_t", COORD="size_t")]
        if a in GRAPH: J.append(en("graph of 3 nodes, identifiers of %d bits" % (12 if tier == "quick" else 32), a, None, dict(bits=12 if tier == "quick" else 32), cost=3, t=600))
    return J

# ---- C05: memory resources ----
def rs(name, algo, params, dims=None, rev=1, oct=0, lazy=0, noclean=0, **kw):
    defs = "-DALGO=%s -DREV=%d -DOCT=%d -DLAZY=%d -DNOCLEAN=%d -DHEUR=%s" % (algo, rev, oct, lazy, noclean, "chebyshev" if oct else "manhattan")
    p = dict(params)
    if dims: defs += " -DKD=%d" % len(dims); p.update({"d%d" % i: d for i, d in enumerate(dims)})
    else: defs += " -DGRAPH"
    return job("resource", "%s %s" % (algo, name), defs, p, **kw)
def c05(tier):
    J = []
    for a in ALL + ["jps", "gjps"]:
        o = 1 if a in ("jps", "gjps") else 0; m = dict(mode=0 if o else 1 if a == "flood" else 3)
        J += [rs("3x3 edge to corner, twice", a, dict(m, s=1, e=8, twice=1), (3, 3), oct=o, cost=1),
              rs("3x3 corners, an allocation fails, then again", a, dict(m, s=0, e=8, fail=24, twice=1), (3, 3), oct=o, cost=10, steps=20000000),
              rs("4x4 corners, lazy, from the other end", a, dict(m, s=0, e=15), (4, 4), oct=o, rev=0, lazy=1, cost=8, steps=20000000),
              rs("6x6 serpent, no cleanup", a, dict(m, **SERPENT), (6, 6), oct=o, noclean=1, cost=8, steps=60000000)]
        if not o and a not in ("iddfs", "eiddfs"): J.append(big("17x16 hall", a, (17, 16), dict(mode=m["mode"], kind=1, free=2, twice=1), more=" -DACCOUNT"))
        if a not in ("iddfs", "eiddfs"): J.append(big("17x16 hall, an allocation fails", a, (17, 16), dict(mode=7 if o else m["mode"], kind=1, free=1, faults=44), oct=o, rev=0, more=" -DACCOUNT" + " -DJUMP" * o, cost=3))
        if a not in DEEPENING and tier == "thorough": J.append(huge("70x70 hall, an allocation fails", a, (70, 70), dict(mode=7 if o else m["mode"], kind=1, free=2, e=4899, faults=60), 2400, oct=1, lazy=1, more=" -DACCOUNT" + " -DJUMP" * o, cost=60))
        if not o and a not in ("iddfs", "eiddfs", "eidastar"): J.append(big("17x16 corridors", a, (17, 16), dict(mode=m["mode"], kind=0, free=2, every=3), rev=0, lazy=1, noclean=1, more=" -DACCOUNT"))
        if not o: J += [rs("3x4 octile corners, an allocation fails", a, dict(m, s=11, e=0, pattern=0xfff, free=0x2d4, fail=30), (3, 4), oct=1, cost=8, steps=20000000),
                        rs("2x3x2 corners, no cleanup", a, dict(m, s=0, e=11, capacity=3), (2, 3, 2), noclean=1, cost=4),
                        solve("3x3 edge to corner, pools serve twice", a, (3, 3), dict(mode=m["mode"] + 16, s=1, e=8), noclean=0, pool=64, cost=2)]
    for a in GRAPH:
        J += [rs("every graph of 4 nodes, twice", a, dict(n=4, twice=1), cost=2), rs("every graph of 4 nodes, an allocation fails", a, dict(n=4, fail=24), rev=0, cost=2)]
        if a != "smastar": J.append(rs("K4, weights 1..3, lazy", a, dict(n=4, free=0, wmax=3), lazy=1, cost=6))
        if a != "smastar": J.append(rs("5 nodes, weights 1..3", a, dict(n=5, edges=0x2d5, free=0, wmax=3), cost=6))
    return J

# ---- C10: memory limits ----
def c10(tier):
    J = []
    for a in ("smastar", "osmastar", "mgstar"):
        m = dict(mode=2 + (32 if a == "mgstar" else 0), peak=1)      # MG* may walk in a loop when memory is short
        J += [big("17x16 hall, limits", a, (17, 16), dict(m, kind=1, limits=1, free=2), more=" -DACCOUNT"), big("17x16 corridors, limits", a, (17, 16), dict(m, kind=0, limits=1, free=2, every=3), rev=0, lazy=1, noclean=1, more=" -DACCOUNT"),
              big("300x1 row, limits", a, (300, 1), dict(m, kind=1, limits=1, free=2), rev=0, more=" -DACCOUNT")]
        J += [rs("3x3 all pairs, limits 1..12", a, dict(m, limits=12), (3, 3), cost=8, t=150),
              rs("4x4 corners, limits 1..20, lazy", a, dict(m, s=0, e=15, limits=20), (4, 4), lazy=1, rev=0, cost=8, t=150, steps=60000000),
              rs("6x6 serpent, limits 1..40", a, dict(m, limits=40, **SERPENT), (6, 6), cost=8, t=150, steps=60000000),
              rs("8x8 rooms, limits 1..70", a, dict(m, limits=70, **ROOMS), (8, 8), cost=8, t=150, steps=60000000),
              rs("2x3x2 corners, limits 1..16", a, dict(m, s=0, e=11, limits=16, capacity=3), (2, 3, 2), noclean=1, cost=4, t=150),
              rs("3x4 octile corners, limits 1..16", a, dict(m, s=11, e=0, pattern=0xfff, free=0x6f6, limits=16), (3, 4), oct=1, cost=8, t=150, steps=20000000),
              rs("every graph of 4 nodes, limits 1..8", a, dict(n=4, mode=2, limits=8, peak=1), cost=4, t=150),
              rs("6x6 serpent, limits 1..40, an allocation fails", a, dict(m, limits=40, fail=12, **SERPENT), (6, 6), cost=8, t=150, steps=60000000)]
    return J

# ---- C12..C15: indices and grids ----
def c12(tier):
    J = []
    for k, hi in ((1, 9), (2, 5), (3, 5), (4, 3), (5, 3)):
        J.append(job("index", "%d dimensions of 1..%d" % (k, hi), "-DKD=%d" % k, dict(hi=hi), args=BV, cost=hi ** k / 40, t=200))
    for d in ((10, 30, 7, 100), (640, 480), (64, 3, 100)):
        J.append(job("index", "fixed " + "x".join(map(str, d)), "-DKD=%d" % len(d), dict(fixed=1, **{"d%d" % i: x for i, x in enumerate(d)}), args=BV, cost=5))
    for d in ((65536, 65535), (131072, 64, 511), (4294967295,)): J.append(job("index", "fixed " + "x".join(map(str, d)), "-DKD=%d" % len(d), dict(fixed=1, **{"d%d" % i: x for i, x in enumerate(d)}), args=BV, cost=5))
    for d in ((1 << 31, 1 << 32), (1 << 22, 1 << 21, 99999)): J.append(job("index", "fixed " + "x".join(map(str, d)) + ", 64-bit", "-DKD=%d -DVT=uint64_t" % len(d), dict(fixed=1, **{"d%d" % i: x for i, x in enumerate(d)}), args=BV, cost=5))
    J.append(job("index", "3 dimensions of 1..3, 64-bit", "-DKD=3 -DVT=uint64_t", dict(hi=3), args=BV, cost=3))
    if tier == "thorough":
        J += [job("index", "4 dimensions of 1..5", "-DKD=4", dict(hi=5), args=BV, cost=100, t=1800), job("index", "3 dimensions of 1..9", "-DKD=3", dict(hi=9), args=BV, cost=100, t=1800),
              job("index", "6 dimensions of 1..2", "-DKD=6", dict(hi=2), args=BV, cost=20, t=900)]
    return J
def gr(name, k, what, params, cell="char", t_="uint32_t", **kw):
    return job("grid", name, "-DKD=%d -DCELL=%s -DVT=%s -DWHAT=%d" % (k, cell, t_, what), params, **kw)
def hgr(name, k, what, params, *a): return typed(gr(name, k, what, params, *a, steps=4000000000, t=300, cost=8), MAXN=70000)
def c13(tier):
    J = [hgr("300x230", 2, 1, dict(d0=300, d1=230, stride=6553)), hgr("50x40x30 bool, signed", 3, 1, dict(d0=50, d1=40, d2=30, stride=13331), "bool", "int"), hgr("70000", 1, 1, dict(d0=70000, stride=9371), "int", "uint64_t"),
         gr("20x17", 2, 1, dict(d0=20, d1=17, every=19), steps=300000000, cost=3), gr("7x6x8 bool, signed", 3, 1, dict(d0=7, d1=6, d2=8, every=29), "bool", "int", steps=300000000, cost=3), gr("1-D up to 6", 1, 1, dict(hi=6)), gr("2-D up to 4x4", 2, 1, dict(hi=4), cost=5), gr("2-D bool size_t up to 3x3", 2, 1, dict(hi=3), "bool", "size_t", cost=3),
         gr("3-D int up to 3x3x3", 3, 1, dict(hi=3), "int", cost=20, t=120), gr("4-D up to 2x2x2x2", 4, 1, dict(hi=2), cost=5), gr("5-D bool up to 2^5", 5, 1, dict(hi=2), "bool", cost=10, t=120),
         gr("2-D signed up to 3x3", 2, 1, dict(hi=3), "char", "int", cost=3), gr("3-D signed up to 2x2x2", 3, 1, dict(hi=2), "char", "int64_t", cost=3)]
    if tier == "thorough": J += [gr("2-D up to 6x6", 2, 1, dict(hi=6), cost=60), gr("3-D up to 4x4x4", 3, 1, dict(hi=4), cost=300, t=3000), gr("4-D up to 3x3x3x3", 4, 1, dict(hi=3), cost=300, t=3000)]
    return J
def c14(tier):
    J = [hgr("300x230", 2, 2, dict(d0=300, d1=230, stride=6553)), hgr("50x40x30 bool, signed", 3, 2, dict(d0=50, d1=40, d2=30, stride=13331), "bool", "int"), hgr("70000", 1, 2, dict(d0=70000, stride=9371), "int", "uint64_t"),
         hgr("300x230, single directions", 2, 4, dict(d0=300, d1=230, stride=6553)), hgr("50x40x30 bool, signed, single directions", 3, 4, dict(d0=50, d1=40, d2=30, stride=13331), "bool", "int"), hgr("70000, single directions", 1, 4, dict(d0=70000, stride=9371), "int", "uint64_t"),
         gr("20x17", 2, 2, dict(d0=20, d1=17, every=19), steps=300000000, cost=3), gr("7x6x8 bool, signed", 3, 2, dict(d0=7, d1=6, d2=8, every=29), "bool", "int", steps=300000000, cost=3), gr("20x17 single directions", 2, 4, dict(d0=20, d1=17, every=19), steps=300000000, cost=3), gr("1-D up to 6", 1, 6, dict(hi=6)), gr("2-D up to 4x4", 2, 6, dict(hi=4), cost=5), gr("2-D bool size_t up to 3x3", 2, 6, dict(hi=3), "bool", "size_t", cost=3),
         gr("3-D int up to 3x3x3", 3, 2, dict(hi=3), "int", cost=20, t=120), gr("3-D single directions up to 2x2x2", 3, 4, dict(hi=2), cost=5), gr("4-D up to 2x2x2x2", 4, 2, dict(hi=2), cost=5),
         gr("4-D single directions 2x1x2x2", 4, 4, dict(d0=2, d1=1, d2=2, d3=2), cost=10, t=120), gr("5-D bool up to 2^5", 5, 2, dict(hi=2), "bool", cost=10, t=120),
         gr("2-D signed up to 3x3", 2, 6, dict(hi=3), "char", "int", cost=3), gr("3-D signed up to 2x2x2", 3, 6, dict(hi=2), "bool", "int64_t", cost=5)]
    if tier == "thorough": J += [gr("2-D up to 6x6", 2, 6, dict(hi=6), cost=60), gr("3-D single directions up to 3x3x3", 3, 4, dict(hi=3), cost=300, t=3000), gr("4-D up to 3x3x3x3", 4, 2, dict(hi=3), cost=300, t=3000)]
    return J
def c15(tier):
    J = [hgr("300x230", 2, 8, dict(d0=300, d1=230, stride=6553)), hgr("50x40x30 bool, signed", 3, 8, dict(d0=50, d1=40, d2=30, stride=13331), "bool", "int"), hgr("70000", 1, 8, dict(d0=70000, stride=9371), "int", "uint64_t"),
         gr("20x17", 2, 8, dict(d0=20, d1=17, every=19), steps=300000000, cost=3), gr("7x6x8 bool, signed", 3, 8, dict(d0=7, d1=6, d2=8, every=29), "bool", "int", steps=300000000, cost=3), gr("1-D up to 6", 1, 8, dict(hi=6)), gr("2-D up to 3x3", 2, 8, dict(hi=3), cost=5), gr("2-D bool size_t up to 3x3", 2, 8, dict(hi=3), "bool", "size_t", cost=5), gr("2-D int 64-bit up to 3x3", 2, 8, dict(hi=3), "int", "uint64_t", cost=5),
         gr("3-D 2x3x2", 3, 8, dict(d0=2, d1=3, d2=2), cost=10, t=120), gr("3-D bool 3x2x2", 3, 8, dict(d0=3, d1=2, d2=2), "bool", cost=10, t=120), gr("4-D bool 2x2x2x2", 4, 8, dict(d0=2, d1=2, d2=2, d3=2), "bool", cost=10, t=120),
         gr("2-D signed up to 3x3", 2, 8, dict(hi=3), "char", "int", cost=5), gr("3-D signed 2x2x2", 3, 8, dict(d0=2, d1=2, d2=2), "bool", "int64_t", cost=5)]
    if tier == "thorough": J += [gr("2-D up to 5x5", 2, 8, dict(hi=5), cost=60), gr("3-D up to 3x3x3", 3, 8, dict(hi=3), cost=200, t=2000)]
    return J

# ---- C16 / C17: graph mazes ----
def c16(tier):
    J = [job("graph", "150 nodes called by large numbers and a hub, 2 edits", "-DWHAT=1", dict(n=150, hub=1, ops=2, base=4294900000, gap=401), steps=400000000, cost=4, t=150), job("graph", "300 nodes and a hub, 1 edit", "-DWHAT=1", dict(n=300, hub=1, ops=1), steps=400000000, cost=4, t=150),
         job("graph", "2 nodes, 3 edits", "-DWHAT=1", dict(n=2, ops=3), cost=3), job("graph", "3 nodes, 2 edges and 3 edits", "-DWHAT=1", dict(n=3, ops=3, fill=2), cost=6, t=120),
         job("graph", "2 nodes, 3 edges and 4 edits", "-DWHAT=1", dict(n=2, ops=4, fill=3), cost=24, t=150)]
    if tier == "thorough": J += [job("graph", "3 nodes, 3 edges and 4 edits", "-DWHAT=1", dict(n=3, ops=4, fill=3), cost=300, t=3000), job("graph", "4 nodes, 4 edges and 3 edits", "-DWHAT=1", dict(n=4, ops=3, fill=4), cost=100, t=3000)]
    return J
def c17(tier):
    g = lambda name, p, **kw: job("graph", name, "-DWHAT=2", p, **kw)
    J = [job("graph", "60 nodes", "-DWHAT=3", dict(n=60, extra=4), steps=300000000, cost=3), job("graph", "61 nodes, prune without contraction", "-DWHAT=3 -DW=uint16_t", dict(n=61, extra=4, stretch=20, plain=1), steps=300000000, cost=3), job("graph", "64 nodes", "-DWHAT=3", dict(n=64, extra=5, stretch=64), steps=300000000, cost=3),
         g("every graph of 4 nodes, weights 1..7", dict(n=4, free=63), cost=11, t=120), g("5 nodes A, weights 1..7", dict(n=5, edges=0x295), cost=3), g("5 nodes B, weights 1..3", dict(n=5, edges=0x2d5, wbits=2), cost=3),
         g("1 node", dict(n=1, free=0)), g("2 nodes", dict(n=2, free=1)), g("every graph of 3 nodes", dict(n=3, free=7)),
         g("6 nodes in a chain", dict(n=6, edges=0x4211, wbits=2), cost=3), g("every graph of 5 nodes", dict(n=5, free=1023, wbits=0), cost=2), g("every graph of 6 nodes", dict(n=6, free=0x7fff, wbits=0), cost=28, t=150),
         g("3 nodes with parallel edges", dict(n=3, par=3, free=7), cost=3), g("4 nodes with parallel edges", dict(n=4, par=63, edges=51, wbits=2), cost=5), g("4 nodes, prune without contraction", dict(n=4, par=1, edges=63, wbits=1, plain=1), cost=3)]
    if tier == "thorough": J += [g("every graph of 5 nodes, weights 1..3", dict(n=5, free=1023, wbits=2), cost=300, t=3000), g("every graph of 4 nodes, parallel edges", dict(n=4, free=63, par=63, wbits=2), cost=300, t=3000)]
    return J

# ---- C30: a graph built from a grid ----
def gg(name, dims, params, cell="char", **kw):
    return job("ggrid", name, "-I%s/harness/shim -DKD=%d -DCELL=%s" % (HERE, len(dims), cell), dict(params, **{"d%d" % i: d for i, d in enumerate(dims)}), **kw)
def c30(tier):
    J = [gg("%dx%d, %d workers" % (x, y, c), (x, y), dict(cores=c)) for x, y, c in ((1, 1, 1), (1, 2, 3), (2, 1, 4), (1, 5, 2), (4, 1, 4), (2, 2, 6))]
    J += [gg("12x12 corridors, 6 workers", (12, 12), dict(cores=6, anyorder=0, large=4), steps=300000000, cost=3), gg("11x12 corridors, 3 workers in any order", (11, 12), dict(cores=3, large=3), "int", steps=300000000, cost=3),
         gg("3x3, 1 worker", (3, 3), dict(cores=1), cost=3), gg("3x3 bool, 3 workers in any order", (3, 3), dict(cores=3), "bool", cost=6, t=120), gg("3x3, 0 to 7 cores", (3, 3), dict(cores=255, anyorder=0), cost=6, t=120),
         gg("4x3, 6 workers", (4, 3), dict(cores=6, anyorder=0), cost=10, t=120), gg("2x3, 4 workers in any order", (2, 3), dict(cores=4), cost=5, t=120), gg("9 in a row, 0 to 7 cores", (9,), dict(cores=255, anyorder=0), "int", cost=4),
         gg("2x3x2, 2 workers in any order", (2, 3, 2), dict(cores=2, pattern=0xfff, free=0x7be), "bool", cost=20, t=150), gg("6x6 serpent, 2 workers in any order", (6, 6), dict(cores=2, **SERPENT), cost=10, t=120), gg("8x8 rooms, 6 workers", (8, 8), dict(cores=6, anyorder=0, **ROOMS), cost=20, t=150)]
    if tier == "thorough": J += [gg("4x4, 2 workers in any order", (4, 4), dict(cores=2), cost=300, t=3000), gg("2x7, 3 workers in any order", (2, 7), dict(cores=3), cost=200, t=3000), gg("2x3x2, 2 workers", (2, 3, 2), dict(cores=2), "bool", cost=100, t=1800), gg("3x3, 6 workers in any order", (3, 3), dict(cores=6), cost=300, t=3000)]
    return J

# ---- C18 / C19: heap ----
def hp(name, mode, params, kh=2, greater=0, owning=0, **kw):
    return job("heap", name, "-DKH=%d -DMODE=%d%s%s" % (kh, mode, " -DGREATER" if greater else "", " -DOWNING" if owning else ""), params, **kw)
def c18(tier):
    J = []
    for kh in (2, 3, 4):
        J += [hp("insert and drain 5, %d children" % kh, 1, dict(n=5), kh, cost=10, t=150), hp("insert and drain 9, %d children" % kh, 1, dict(n=9, sym=0x210), kh, cost=5, t=100),
              hp("insert and drain 70, %d children" % kh, 1, dict(n=70, sym=0x200, keys=9, mul=17, mod=61, by=4), kh, steps=100000000, cost=5), hp("insert and drain 300, %d children" % kh, 1, dict(n=300, sym=0, mul=101, mod=251, by=1), kh, steps=100000000, cost=3),
              hp("build and drain 300, %d children" % kh, 2, dict(n=300, sym=0, mul=101, mod=251, by=1, move=kh & 1), kh, steps=100000000, cost=3),
              hp("build and drain 5, %d children" % kh, 2, dict(n=5, move=kh & 1), kh, cost=10, t=150), hp("build and drain 9, %d children" % kh, 2, dict(n=9, sym=0x210, move=1), kh, cost=5, t=100)]
    for kh in (2, 4): J += [typed(hp("%s 5000, %d children" % (w, kh), k, dict(n=5000, sym=0, tally=1, mul=101, mod=251, by=1, move=kh == 2), kh, steps=4000000000, cost=2), MAXN=5000) for k, w in ((1, "insert and drain"), (2, "build and drain"))]
    J.append(typed(hp("insert and drain 65000", 1, dict(n=65000, sym=0, tally=1, mul=101, mod=251, by=1), 4, steps=4000000000, cost=8, t=200), MAXN=65000))
    J += [hp("unsorted appends 300", 7, dict(n=300, sym=0, mul=101, mod=251, by=1), 4, steps=100000000, cost=3), hp("insert and drain 4, largest first", 1, dict(n=4), 2, 1, cost=3), hp("interleaving of 6", 5, dict(n=6), cost=20, t=150), hp("interleaving of 10, 4 children", 5, dict(n=10, sym=0x224), 4, cost=20, t=150), hp("unsorted appends 5", 7, dict(n=5), cost=10, t=150), hp("unsorted appends 9, 4 children", 7, dict(n=9, sym=0x210), 4, cost=5, t=100)]
    J += [hp("insert and drain 4 owning elements", 1, dict(n=4), 3, owning=1, cost=4), hp("insert and drain 9 owning elements", 1, dict(n=9, sym=0x210), 2, owning=1, cost=4), hp("build and drain 5 owning elements", 2, dict(n=5, sym=0x12, move=1), 2, owning=1, cost=4),
          hp("unsorted appends of owning elements", 7, dict(n=5, sym=0x12), 2, owning=1, cost=3), hp("interleaving of 5 with owning elements", 5, dict(n=5), 4, owning=1, cost=4), hp("insert 4 pointers and drain", 9, dict(n=4), 2, cost=4), hp("insert 9 pointers and drain, 4 children", 9, dict(n=9, sym=0x210), 4, cost=4)]
    J += [hp("build and drain %d, %d children" % (n, k), 2, dict(n=n, move=n & 1), k) for n in range(4) for k in (2, 3, 4)] + [hp("insert and drain %d, %d children" % (n, k), 1, dict(n=n), k) for n in range(3) for k in (2, 4)]
    J += [hp("insert at any position, %d children" % k, 8, dict(n=3 if k == 2 else 6, sym=0x1F if k == 2 else 0x41, range=0, move=k == 3), k, cost=5) for k in (2, 3, 4)]
    if tier == "thorough": J += [hp("insert and drain 6, %d children" % k, 1, dict(n=6), k, cost=300, t=3000) for k in (2, 4)] + [hp("interleaving of 7", 5, dict(n=7), cost=300, t=3000), hp("insert and drain 17, 4 children", 1, dict(n=16, sym=0x1210), 4, cost=100, t=1800)]
    return J
def c19(tier):
    J = []
    for kh in (2, 3, 4):
        J += [hp("erase any of 70, %d children" % kh, 3, dict(n=70, sym=0, mul=17, mod=61, by=4, iter=kh & 1), kh, steps=100000000, cost=4), hp("raise any of 40, %d children" % kh, 4, dict(n=40, sym=0, mul=17, mod=37, by=6, up=1, newkeys=9), kh, steps=100000000, cost=4),
              hp("lower any of 40, %d children" % kh, 4, dict(n=40, sym=0, mul=17, mod=37, by=6, up=0, newkeys=9), kh, steps=100000000, cost=4)]
        if kh != 3: J += [typed(hp("%s of 5000, %d children" % (w, kh), k, dict(n=5000, sym=0, tally=1, mul=101, mod=251, by=1, newkeys=2, stride=307 if tier == "thorough" else 607, up=u), kh, steps=4000000000, cost=12, t=200), MAXN=5000) for k, u, w in ((3, 0, "erase"), (4, 1, "raise"), (4, 0, "lower"))]
    J.append(hp("copy 300", 6, dict(n=300, sym=0, mul=101, mod=251, by=1), 4, steps=100000000, cost=4))
    for kh in (2, 4):
        J += [hp("erase any of 5, %d children" % kh, 3, dict(n=5, iter=kh == 4), kh, cost=20, t=150), hp("erase any of 9, %d children" % kh, 3, dict(n=9, sym=0x210, iter=kh == 2), kh, cost=10, t=150),
              hp("raise priority of any of 4, %d children" % kh, 4, dict(n=4, up=1), kh, cost=20, t=150), hp("lower priority of any of 4, %d children" % kh, 4, dict(n=4, up=0), kh, cost=20, t=150),
              hp("raise priority of any of 9, %d children" % kh, 4, dict(n=9, sym=0x200, up=1), kh, cost=10, t=150), hp("lower priority of any of 9, %d children" % kh, 4, dict(n=9, sym=0x010, up=0), kh, cost=10, t=150)]
    J += [hp("copy, move, swap, clear 4", 6, dict(n=4), cost=20, t=150), hp("copy, move, swap, clear 9, 3 children", 6, dict(n=9, sym=0x100), 3, cost=10, t=150)]
    J += [hp("copy, move, swap, clear %d" % n, 6, dict(n=n), 2) for n in (1, 2)] + [hp("erase any of %d" % n, 3, dict(n=n, iter=n & 1), 4) for n in (1, 2, 3)]
    J += [hp("erase any range of 4", 8, dict(n=4), 2, cost=5), hp("erase any range of 9, 3 children", 8, dict(n=9, sym=0x100), 3, cost=5), hp("erase any range of 20, 4 children", 8, dict(n=20, sym=0, mul=7, mod=19, by=11), 4, steps=100000000, cost=3),
          hp("erase any of 5 owning elements", 3, dict(n=5, sym=0x12), 2, owning=1, cost=3), hp("erase any of 9 owning elements, 4 children", 3, dict(n=9, sym=0x10, iter=1), 4, owning=1, cost=3), hp("raise any of 5 owning elements", 4, dict(n=5, sym=0x12), 2, owning=1, cost=3), hp("lower any of 5 owning elements", 4, dict(n=5, sym=0x2, up=0), 3, owning=1, cost=3),
          hp("copy, move, swap, clear 4 owning elements", 6, dict(n=4, sym=0x5), 2, owning=1, cost=3), hp("erase any range of 5 owning elements", 8, dict(n=5, sym=0x12), 2, owning=1, cost=3)]
    if tier == "thorough": J += [hp("erase any of 6", 3, dict(n=6), cost=300, t=3000), hp("raise priority of any of 5", 4, dict(n=5, up=1), cost=200, t=3000), hp("lower priority of any of 5", 4, dict(n=5, up=0), cost=200, t=3000), hp("raise priority of any of 16, 4 children", 4, dict(n=15, sym=0x1200, up=1), 4, cost=100, t=3000)]
    return J

# ---- C20 / C21: lists ----
def c20(tier):
    J = []
    for w, nm in ((1, "queue"), (2, "stack")):
        J += [job("lists", "%s, 300 elements then 2 operations" % nm, "-DWHAT=%d" % w, dict(n=2, prefill=300, plain=1), steps=100000000, cost=3), typed(job("lists", "%s, 5000 elements then an operation" % nm, "-DWHAT=%d" % w, dict(n=1, prefill=5000, plain=1), steps=4000000000, cost=2), MAXN=5100),
              typed(job("lists", "%s, 70000 elements then an operation" % nm, "-DWHAT=%d" % w, dict(n=1, prefill=70000, plain=1), steps=4000000000, cost=10, t=200), MAXN=70100), job("lists", "%s, every sequence of 4 operations" % nm, "-DWHAT=%d" % w, dict(n=4), cost=20, t=150), job("lists", "%s, 33 elements then 3 operations" % nm, "-DWHAT=%d" % w, dict(n=3, prefill=33), steps=20000000, cost=20, t=150),
              job("lists", "%s, 31 elements then 3 operations" % nm, "-DWHAT=%d" % w, dict(n=3, prefill=31), steps=20000000, cost=20, t=150)]
        J += [job("lists", "%s of owning elements, every sequence of 3 operations" % nm, "-DOWNING -DWHAT=%d" % w, dict(n=3), cost=20, t=150), job("lists", "%s of owning elements, 21 and then 2 operations" % nm, "-DOWNING -DWHAT=%d" % w, dict(n=2, prefill=21, plain=1), steps=20000000, cost=10, t=150)]
        if tier == "thorough": J += [job("lists", "%s, every sequence of 5 operations" % nm, "-DWHAT=%d" % w, dict(n=5), cost=100, t=3000), job("lists", "%s, 62 elements then 3 operations" % nm, "-DWHAT=%d" % w, dict(n=3, prefill=60), steps=60000000, cost=60, t=1800)]
    return J
def c21(tier):
    J = [job("lists", "set of bytes, 3 operations on 3 hashes", "-DWHAT=3 -DWIDTH=char", dict(n=3, range=3), cost=10, t=150), job("lists", "set of bits, 2 operations on 10 hashes", "-DWHAT=3 -DWIDTH=bool", dict(n=2, range=10), cost=10, t=150),
         job("lists", "set of bytes, 2 operations on 10 hashes", "-DWHAT=3 -DWIDTH=char", dict(n=2, range=10, capacity=2), cost=10, t=150), job("lists", "set of bits, 3 operations on 3 hashes", "-DWHAT=3 -DWIDTH=bool", dict(n=3, range=3, capacity=1), cost=10, t=150)]
    for w in ("char", "bool"): J += [job("lists", "set of %s, an operation on one of 300 hashes" % w, "-DWHAT=3 -DWIDTH=" + w, dict(n=1, range=300, fill=290, top=310), steps=100000000, cost=5),
                                     job("lists", "set of %s, operations on any 2 of 200 hashes" % w, "-DWHAT=3 -DWIDTH=" + w, dict(n=2, spread=1, fill=200, top=310), steps=100000000, cost=8),
                                     typed(job("lists", "set of %s, an operation on one of 65555 hashes" % w, "-DWHAT=3 -DWIDTH=" + w, dict(n=1, spread=2, fill=65555, top=65610), steps=4000000000, cost=10, t=200), MAXN=66000)]
    for w in ("char", "bool"): J.append(job("lists", "set of %s, 2 operations of all kinds on 3 hashes" % w, "-DWHAT=3 -DWIDTH=" + w, dict(n=2, range=3, ops=9), cost=10, t=150))
    J.append(job("lists", "set of words, 2 operations of all kinds on 3 hashes", "-DWHAT=3 -DWIDTH=uint16_t", dict(n=2, range=3, ops=9), cost=10, t=150))
    if tier == "thorough": J += [job("lists", "set of bytes, 4 operations on 3 hashes", "-DWHAT=3 -DWIDTH=char", dict(n=4, range=3), cost=100, t=3000), job("lists", "set of bits, 4 operations on 3 hashes", "-DWHAT=3 -DWIDTH=bool", dict(n=4, range=3), cost=100, t=3000)]
    return J

# ---- C22..C24: pools ----
def pl(kind, name, params, stack=64, maxheap=256, **kw):
    return job("pool", name, "-DPOOLT=%d -DSTACK=%d -DMAXHEAP=%d" % (kind, stack, maxheap), params, **kw)
def pools(kind, tier):
    J = [typed(pl(kind, "history of 1000 with one deviation", dict(n=0, history=1000, stride=499 if kind == 3 else 91, sizes=3, aligns=3, width=40), maxheap=4096, steps=4000000000, cost=12, t=300), MAXLIVE=1100), pl(kind, "history of 100 in a small pool with one deviation", dict(n=0, history=100, sizes=3, aligns=3, width=40), maxheap=512, steps=100000000, cost=10, t=200), pl(kind, "history of 60 in the usual pool with one deviation", dict(n=0, history=60, sizes=4, aligns=4, width=4096), stack=256, maxheap=100000, steps=100000000, cost=10, t=200),
         pl(kind, "3 operations, 4 sizes, 4 alignments", dict(n=3), cost=10, t=150), pl(kind, "4 operations, small pool", dict(n=4, sizes=3, aligns=3, width=32), maxheap=128, cost=30, t=200),
         pl(kind, "4 operations, no room on the stack", dict(n=4, sizes=2, aligns=2, width=40), stack=16, maxheap=128, cost=20, t=200),
         pl(kind, "3 operations with a failing heap request", dict(n=3, fail=4, sizes=3, aligns=2, again=1, width=40), stack=16, maxheap=128, cost=20, t=200),
         pl(kind, "3 operations, then moved", dict(n=3, move=1, sizes=2, aligns=2, width=40), cost=20, t=200)]
    if kind == 3: J.append(pl(kind, "4 operations with reuse of aligned small blocks", dict(n=4, ops=4, sizes=2, aligns=4, width=100), cost=20, t=200))
    if kind == 3: J.append(pl(kind, "4 operations with reuse", dict(n=4, ops=4, sizes=3, aligns=2, width=100), cost=20, t=200))
    if tier == "thorough": J += [pl(kind, "5 operations, 2 sizes, 2 alignments", dict(n=5, sizes=2, aligns=2, width=40), maxheap=128, cost=200, t=3000), pl(kind, "4 operations, 4 sizes, 4 alignments", dict(n=4, sizes=4, aligns=4), cost=200, t=3000), pl(kind, "4 operations with a failing heap request", dict(n=4, fail=6, sizes=2, aligns=2, again=1, width=40), stack=16, maxheap=128, cost=200, t=3000)]
    return J

# ---- C26..C28: heuristics and helpers ----
def mt(name, what, defs, params, **kw): return job("maths", name, "-DWHAT=%d %s" % (what, defs), params, **kw)
def c26(tier):
    J = [mt("1-D, 30 bits", 1, "-DKD=1", dict(bits=30)), mt("2-D, 30 bits", 1, "-DKD=2", dict(bits=30), cost=3), mt("3-D, 29 bits", 1, "-DKD=3", dict(bits=29), cost=5), mt("4-D, 30 bits, 64-bit result", 1, "-DKD=4 -DVS=uint64_t", dict(bits=30), cost=18, t=120),
         mt("2-D squared, 6 bits", 1, "-DKD=2", dict(bits=6, square=1), cost=5, t=120), mt("3-D squared, 14 bits", 1, "-DKD=3", dict(bits=14, square=1), cost=6, t=120), mt("2-D moves, 8 bits", 1, "-DKD=2", dict(bits=8, moves=1), cost=16, t=120),
         mt("2-D other metrics up to 5", 2, "-DKD=2", dict(hi=5)), mt("3-D other metrics up to 2", 2, "-DKD=3", dict(hi=2)), mt("1-D other metrics up to 30", 2, "-DKD=1", dict(hi=30))]
    if tier == "thorough": J += [mt("2-D other metrics up to 12", 2, "-DKD=2", dict(hi=12), cost=50, t=1800), mt("4-D other metrics up to 2", 2, "-DKD=4", dict(hi=2), cost=50, t=1800), mt("3-D moves, 6 bits", 1, "-DKD=3", dict(bits=6, moves=1), cost=100, t=1800)]
    return J
def c27(tier):
    J = [mt("helpers on " + t, 3, "-DVT=%s" % t, {}) for t in ("uint32_t", "int32_t", "int64_t", "uint64_t", "int8_t")]
    J += [mt("powers of uint8_t", 4, "-DVT=uint8_t", dict(emax=20), cost=3), mt("powers of uint16_t", 4, "-DVT=uint16_t", dict(emax=40), cost=5, t=120), mt("powers of uint32_t", 4, "-DVT=uint32_t", dict(emax=33), args=BV, cost=25, t=200)]
    if tier == "thorough": J += [mt("powers of uint64_t, base up to 15", 4, "-DVT=uint64_t", dict(emax=65, bits=4), args=BV, cost=200, t=3000)]
    return J
def c28(tier):
    J = [mt("every text of up to 10 characters", 5, "-D_GLIBCXX_ASSERTIONS", dict(n=10), cost=3)]
    if tier == "thorough": J += [mt("every text of up to 14 characters", 5, "-D_GLIBCXX_ASSERTIONS", dict(n=14), cost=30, t=1800)]
    return J

PROPS = {"C01": dict(jobs=c01), "C02": dict(jobs=c02), "C03": dict(jobs=c03), "C04": dict(jobs=c04), "C05": dict(jobs=c05), "C07": dict(jobs=c07), "C08": dict(jobs=c08), "C10": dict(jobs=c10), "C11": dict(jobs=c11),
         "C12": dict(jobs=c12), "C13": dict(jobs=c13), "C14": dict(jobs=c14), "C15": dict(jobs=c15), "C16": dict(jobs=c16), "C17": dict(jobs=c17), "C18": dict(jobs=c18), "C19": dict(jobs=c19), "C20": dict(jobs=c20), "C21": dict(jobs=c21),
         "C22": dict(jobs=lambda t: pools(1, t)), "C23": dict(jobs=lambda t: pools(2, t)), "C24": dict(jobs=lambda t: pools(3, t)), "C26": dict(jobs=c26), "C27": dict(jobs=c27), "C28": dict(jobs=c28), "C30": dict(jobs=c30), "C32": dict(jobs=c32)}

# ---- what lies outside the stated bounds ----
_GRID = "mazes larger than the listed shapes; coordinate types narrower than 32 bits; heuristics other than Manhattan, Euclidean (axis moves) and Chebyshev (octile moves); heuristic weights other than 1 (see C32)"
_GRAPH = "graphs of more nodes or larger weights than listed; node identifiers that are not 0..n-1 (except C04)"
OUTSIDE = {
 "C01": _GRID, "C02": _GRID, "C03": _GRID + "; unsorted (lazy) A*, G*, MG* and MG* with octile moves are not claimed to be optimal", "C04": "mazes larger than the listed shapes (signed, unsigned, 32- and 64-bit coordinates and identifiers themselves are unrestricted); unsigned wrap-around of the linear index of coordinates in grids with more than 2^32 cells",
 "C05": _GRID + "; more than one failed request per solve (the resource keeps failing or fails once, at every position up to the listed count)", "C07": _GRAPH + "; inconsistent heuristics", "C08": _GRID + "; diagonal moves squeezing between two blocked cells", "C10": _GRID + "; limits above the listed ones; memory other than the nodes the limit is documented to bound",
 "C11": _GRAPH + "; heuristics other than zero", "C12": "dimension lengths above the listed ones except the listed fixed shapes", "C13": "grids larger than the listed shapes", "C14": "grids larger than the listed shapes", "C15": "grids larger than the listed shapes", "C16": "longer edit sequences than listed", "C17": _GRAPH + "; directed graphs (documented as unsupported)",
 "C18": "heaps of more elements than listed; positional insertion and bound queries", "C19": "heaps of more elements than listed; positional insertion, bound queries and wipe", "C20": "longer sequences than listed", "C21": "longer sequences and larger hashes than listed",
 "C22": "longer sequences (beyond the histories with one deviation), other request sizes and pool geometries than listed", "C23": "longer sequences (beyond the histories with one deviation), other request sizes and pool geometries than listed; reuse of memory given back (the pool documents none)", "C24": "longer sequences (beyond the histories with one deviation), other request sizes and pool geometries than listed",
 "C26": "coordinates above the listed widths; floating-point results of the other metrics beyond the listed coordinates", "C27": "sqrt (floating point)", "C28": "longer texts than listed",
 "C32": _GRAPH + "; heuristic weights other than 0, 0.5, 1, 1.5, 2 and 3; scalar overflow; JPS; arbitrary heuristics for SMA*",
 "C30": "grids larger than listed; workers interleaved inside one another's critical sections (they are run one after another in every order; changing the graph without the lock is reported)",
}
for _k, _v in PROPS.items():
    _v.setdefault("outside", OUTSIDE.get(_k, "")); _v.setdefault("bounds", "the shapes, sizes, lengths and value ranges named by each configuration; within them every value is decided (a configuration listed under incomplete was cut short)")
