"""C07: the spatial sort permutes the points into grid order with exact ranges."""
from .. import gen, tlc, unit


def coords(r, S, n, kind):
    def lat():
        return (r.randrange(1, S), 0)

    def edge():
        t = r.randrange(10)
        if t == 0:
            return (0, 3)
        if t == 1:
            return (0, 1)
        if t == 2:
            return (S, -1)
        if t == 3:
            return (S, -2)
        if t < 7:
            return (r.randrange(1, S), r.choice([-2, -1, 1, 2]))
        return lat()
    if kind == 0:
        return [(lat(), lat(), lat()) for _ in range(n)]
    if kind == 1:
        return [(edge(), edge(), edge()) for _ in range(n)]
    if kind == 2:      # few distinct points
        few = [(lat(), lat(), lat()) for _ in range(max(1, n // 5))]
        return [r.choice(few) for _ in range(n)]
    if kind == 3:      # all in the last cell
        return [((S - 1, 0), (S - 1, 0), (S, -1)) for _ in range(n)]
    base = gen.skew(r, n, S)
    return [tuple((x, 0) for x in p) for p in base]


def check(run):
    r = run.rng
    tlc.model(run, "SortGrid", "MCSortGrid.cfg")
    exe, _ = unit.get(run, "drv_sort")
    if exe is None:
        return ["sort driver not built"]
    lines, meta = [], {}
    for x in range(run.pick(260, 2500)):
        n = r.choice([0, 1, 2, 3, 8, 20, 50, 120])
        S = r.choice([12, 64, 210, 1024, 4096])
        big = x % 26 == 0
        gr = r.choice([64, 65, 100, 129]) if big else r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 17, 24, 31, 32])
        if x == 0:
            gr = 257
        if x in (5, 6, 7, 8):      # more points than a byte or a short counts
            n, gr = [(300, 3), (1000, 24), (5000, 10), (70000, 8)][x - 5]
        pts = coords(r, S, n, r.randrange(5))
        i = "s%d" % x
        ti, tf = r.choice(["int", "long"]), r.choice(["float", "double"])
        meta[i] = (gr, S, pts)
        lines.append((i, "SORT %s %s %s %d %d %d %s" % (
            i, ti, tf, gr, S, len(pts), " ".join("%d %d" % c for p in pts for c in p))))
    obs = unit.observe(run, exe, lines, timeout=60, per=40)
    recs = []
    for i, _ in lines:
        o = obs.get(i)
        if not o:
            continue
        gr, S, pts = meta[i]
        recs.append(dict(id=i, end=o["end"], gr=gr, S=S, pts=[[list(c) for c in p] for p in pts],
                         perm=o.get("perm", []), ids=o.get("ids", []), runs=o.get("runs", []),
                         cells=o.get("cells", 0), first=o.get("first", 0), last=o.get("last", 0)))
    tlc.validate(run, "SortTrace", recs)
    run.add("points_sorted", sum(len(q["pts"]) for q in recs))
    run.sample(lines[3][1][:200])
    return ["a point on or next to a boundary between two cells may be in either"]
