"""C16: hole stitching returns the boundary cycle, whatever the triangle order."""
import re
from .. import tlc, unit


def grow(r, m, close=0.5):
    """a random disc of m triangles (labels from 0), and its number of corners"""
    tris, rim, nv = [(0, 1, 2)], [0, 1, 2], 3
    sides = {frozenset(p) for p in ((0, 1), (1, 2), (2, 0))}
    while len(tris) < m:
        i = r.randrange(len(rim))
        a, b = rim[i], rim[(i + 1) % len(rim)]
        c = rim[(i + 2) % len(rim)]
        if r.random() < close and len(rim) > 3 and frozenset((a, c)) not in sides:
            tris.append((b, a, c))
            sides.add(frozenset((a, c)))
            rim.remove(b)
        else:
            tris.append((b, a, nv))
            sides |= {frozenset((a, nv)), frozenset((b, nv))}
            rim.insert(i + 1, nv)
            nv += 1
    return tris, nv


def fan(m):
    """a closed fan: the inner corner is never on the rim"""
    return [(0, 1 + i, 1 + (i + 1) % m) for i in range(m)], m + 1


def check(run):
    r = run.rng
    tlc.model(run, "Boundary", "MCBoundary_more.cfg" if run.thorough else "MCBoundary.cfg")
    out = tlc.model(run, "Boundary", "MCBoundary_tell.cfg")
    exe, dev = unit.get(run, "drv_boundary")
    if exe is None:
        return ["boundary driver not built"]
    lays = ["p", "a"] if dev else ["p"]
    lines, given = [], {}

    def add(tris, ds, label, shuffle=True):
        tris = [tuple(label[x] for x in t) for t in tris]
        if shuffle:
            r.shuffle(tris)
        ts = []
        for t in tris:
            q = r.randrange(3)
            ts.append(t[q:] + t[:q])
        i = "b%d" % len(lines)
        lay = r.choice(lays)
        if any(len(set(t)) < 3 for t in ts):
            lay = lay.upper()
        given[i] = ts
        lines.append((i, "BND %s %s %d %d %d %d %s" %
                      (i, lay, r.choice([0, 5, 32]), ds, r.choice([0, 3, 30]),
                       len(ts), " ".join(str(x) for t in ts for x in t))))

    def labels(nv, ds):
        return r.sample(range(ds), nv)
    # discs printed by the model, each in several orders
    discs = set()
    for s in tlc.prints(out):
        if s.startswith("DISC |"):
            discs.add(tuple(tuple(int(x) - 1 for x in t) for t in
                            re.findall(r"<<(\d+), (\d+), (\d+)>>", s)))
    discs = sorted(discs)
    run.add("discs_from_model", len(discs))
    for d in discs:
        nv = 1 + max(x for t in d for x in t)
        for _ in range(run.pick(4, 40)):
            ds = r.choice([nv, nv + 1, 12, 32])
            add(list(d), ds, labels(nv, ds))
    # larger ones, up to what the index type can hold
    for x in range(run.pick(300, 3000)):
        m = r.choice([5, 6, 7, 8, 10, 14, 20, 30, 45])
        tris, nv = grow(r, m) if x % 4 else fan(max(3, m))
        ds = r.choice([nv, nv + 3, 64, 128, 254, 255])
        add(tris, max(ds, nv), labels(nv, max(ds, nv)))
    for m in ([100, 180, 240] if not run.thorough else [100, 150, 200, 220, 240, 250]):
        tris, nv = fan(m)
        add(tris, 255, labels(nv, 255))
        tris, nv = grow(r, m)
        if nv <= 255:
            add(tris, 255, labels(nv, 255))
    # more triangles than the index type has values: most corners are inside
    for x in range(run.pick(12, 60)):
        tris, nv = grow(r, [258, 300, 380, 257, 450, 511][x % 6], r.choice([0.75, 0.9]))
        if nv <= 255:
            add(tris, 255, labels(nv, 255))
            run.add("discs_of_more_than_256")
    # not a disc: two components, closed surface, repeated and random triangles
    # (also ones with the same corner twice, which no cell has)
    for x in range(run.pick(1200, 8000)):
        t = r.randrange(6)
        ds = r.choice([16, 32, 100])
        if t == 0:
            a, na = grow(r, r.randrange(1, 5))
            b, nb = grow(r, r.randrange(1, 5))
            tris, nv = a + [tuple(q + na for q in u) for u in b], na + nb
        elif t == 1:
            tris, nv = [(0, 1, 2), (1, 0, 3), (2, 1, 3), (0, 2, 3)], 4
        elif t == 2:
            a, nv = grow(r, r.randrange(2, 7))
            tris = a + [r.choice(a)]
        elif t == 4:
            nv = r.randrange(3, 8)
            tris = [tuple(r.randrange(nv) for _ in range(3)) for _ in range(r.randrange(1, 9))]
        elif t == 5:
            a, nv = grow(r, r.randrange(1, 7))
            u = list(r.choice(a))
            u[r.randrange(3)] = u[r.randrange(3)]
            tris = a + [tuple(u)]
        else:
            nv = r.randrange(4, 10)
            tris = [tuple(r.sample(range(nv), 3)) for _ in range(r.randrange(2, 8))]
        add(tris, max(ds, nv), labels(nv, max(ds, nv)))
    obs = unit.observe(run, exe, lines, timeout=20)
    late = [(i, t) for i, t in lines if obs.get(i, {}).get("end") == "hang"]
    if late:       # a hang is believed when it is repeated, alone and with more time
        for i, o in unit.observe(run, exe, late[:8], timeout=60, per=1).items():
            obs[i] = o
        for i, _ in late[8:]:
            obs.pop(i)
    recs = []
    for i, _ in lines:
        o = obs.get(i)
        if o:
            recs.append(dict(id=i, end=o["end"], status=o.get("status", 0), cycle=o.get("cycle", []),
                             guard=o.get("guard", 0), **{"in": [list(t) for t in given[i]]}))
    rej, done = tlc.validate(run, "BoundaryTrace", recs)
    run.add("discs_judged", sum(v[0] == "disc" for v in done.values()))
    run.add("others_judged", sum(v[0] == "other" for v in done.values()))
    run.sample(lines[0][1])
    return ["corners below 255 (the index type's 'undefined')"]
