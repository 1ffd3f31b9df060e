"""C06: the k-nearest search is exact for every grid resolution."""
import struct
from fractions import Fraction
from .. import gen, tess, tlc
from ..tess import Case


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def boundary_points(r, n, S, gr):
    """coordinates on, next to and between the walls of the grid cells"""
    def one():
        c = r.randrange(gr + 1) if r.random() < 0.7 else r.choice([0, 1, gr - 1, gr])
        x = round(c * S / gr) + r.choice([-1, 0, 0, 1, 2, -2])
        return min(max(x, 1), S - 1)

    def g():
        while True:
            yield (one(), one(), one())
    return gen.dedup(g(), n, 4000)


def cases(run):
    r, out = run.rng, []
    for i in range(run.pick(110, 900)):
        n = r.choice([2, 3, 6, 15, 40, 90, 160, 300])
        S = 1024
        gr = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 27, 32, 50])
        t = r.random()
        pts = boundary_points(r, n, S, gr) if t < 0.35 else \
            gen.points(r, n, S) if t < 0.85 else gen.degenerate(r, n, S)
        n = len(pts)
        k = max(1, r.choice([1, 2, 3, 5, 8, 13, 20, 40, n // 2, n - 1, n + 3]))
        k = min(k, 60) if n > 100 else k
        out.append(Case("a%d" % i, pts, S, tf=("double", "float")[i % 2],
                        ti=("int", "long")[i % 4 == 3], rec=2, k=k, knn_grid_resolution=gr,
                        cpu_nthreads=r.choice([1, 2, 4]), timeout=60,
                        **(dict(use_chunking=True, chunksize=r.choice([1, 7, 50]))
                           if r.random() < 0.3 else {}),
                        **(dict(use_recompute=True) if i % 9 == 4 and n < 100 else {})))
    # k, and numbers of points in one cell, of more than a byte
    for j, (n, k, gr) in enumerate([(400, 300, 4), (700, 260, 1), (1500, 40, 2), (3000, 64, 16)]):
        out.append(Case("b%d" % j, gen.points(r, n, 1024), 1024, tf=("double", "float")[j % 2], rec=2,
                        k=k, knn_grid_resolution=gr, cpu_nthreads=7, timeout=60))
    # fine grids, with points in the outermost layers
    for j in range(run.pick(8, 40)):
        gr = r.choice([65, 66, 70, 80, 100, 128, 129, 140])
        pts = boundary_points(r, r.choice([40, 120, 250]), 1024, gr)
        out.append(Case("f%d" % j, pts, 1024, tf=("double", "float")[j % 2], rec=2, k=r.choice([2, 5, 9]),
                        knn_grid_resolution=gr, cpu_nthreads=7, timeout=90))
    return out


def groups(run):
    r, out = run.rng, []
    for g in range(run.pick(14, 100)):
        n = r.choice([5, 20, 60, 150, 400]) if g else 200
        pts = gen.doubles(r, n)
        k = min(max(1, r.choice([6, 15, 30, n - 1])), 60) if g else 4
        calls = []
        grs = r.sample([1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16, 20, 24, 33, 48, 60], 5)
        if g == 0:
            grs[0] = 257
        for gr in grs:
            gpu = r.random() < 0.4
            calls.append(("k", Case("g%d-%d" % (g, gr), pts, fmt="D", tf=("double", "float")[g % 2],
                                    dev=gpu, gpu=gpu, k=k, knn_grid_resolution=gr,
                                    cc_p_maxsize=64, cc_t_maxsize=128, timeout=90,
                                    gpu_ndsize=r.choice([1, 4, 16]), cpu_nthreads=2,
                                    dev_suppress_stdout=False)))
        out.append(("g%d" % g, calls))
    # more points than 16 bits can number
    pts = gen.doubles(r, 66500)
    out.append(("many", [("k", Case("many-%d" % gr, pts, fmt="D", tf="double", k=5, timeout=40,
                                    knn_grid_resolution=gr, cc_p_maxsize=24, cc_t_maxsize=32,
                                    cpu_nthreads=7, dev_suppress_stdout=False))
                         for gr in (20, 41)]))
    return out


def dist2(p, q):
    return sum((Fraction(a) - Fraction(b)) ** 2 for a, b in zip(p, q))


def ranks(pts, me, eps):
    """dense ranks of the distances from pts[me], equal within rounding"""
    d = sorted((dist2(q, pts[me]), i) for i, q in enumerate(pts))
    out, rank, last = [0] * len(pts), 0, Fraction(0)
    for x, i in d:
        if x > last * (1 + eps):
            rank += 1
        last = x
        out[i] = rank
    return out


def wall_case(r, i, tf):
    """a point, others in its own grid cell and others right behind the walls
    of that cell (or of the cells around), at nearly the same distance"""
    gr = r.choice([2, 3, 3, 5, 6, 7, 10, 11, 13, 17, 24, 49])
    cell = [r.randrange(gr) for _ in range(3)]
    ax = r.randrange(3)
    side = r.choice([-1, 1])
    # shells 0, 1, 2 and farther ones, whose radius is a rounded product
    sh = r.choice([0, 0, 1, 2, r.randrange(3, 12), r.randrange(3, 12)])
    # where a wall is, to the last digit, is the code's business: thirds are
    # not to be had, and single precision may do for them
    gl = r.choice([1 / gr, f32(1 / gr)])
    wall = (cell[ax] + (1 if side > 0 else 0) + side * sh) * gl
    if not 0.01 < wall < 0.99:
        return wall_case(r, i, tf)
    w = 1 / gr
    q = [(c + r.uniform(0.3, 0.7)) / gr for c in cell]
    gap = r.uniform(0.02, 0.25) * w
    q[ax] = (cell[ax] + (1 if side > 0 else 0)) * gl - side * gap
    far = abs(wall - q[ax])
    pts = [tuple(q)]
    fl = 1e-7 if tf == "float" else 1e-10
    for _ in range(r.choice([1, 2, 4, 8])):
        e = far * (1 + r.choice([1e-3, 1e-5, fl, fl * 30, -fl, fl * 10 ** r.uniform(0, 3)]))
        p = list(q)
        if r.random() < 0.5:           # behind the wall, straight ahead
            p[ax] = wall + side * r.choice([1e-3, 1e-6, 1e-8, 1e-9, 0.0, -1e-9, 1e-12]) * w
        else:
            b = r.choice([x for x in range(3) if x != ax])
            p[b] += e * r.choice([-1, 1])
        if all(1e-6 < x < 1 - 1e-6 for x in p):
            pts.append(tuple(p))
    for _ in range(r.choice([0, 3, 20])):
        pts.append(tuple(r.uniform(0.001, 0.999) for _ in range(3)))
    if tf == "float":
        pts = [tuple(f32(x) for x in p) for p in pts]
    pts = list(dict.fromkeys(pts))
    r.shuffle(pts)
    k = r.choice([1, 1, 2, 3, max(1, len(pts) // 2)])
    return Case("w%d" % i, pts, fmt="D", tf=tf, rec=2, k=k, knn_grid_resolution=gr, cpu_nthreads=1)


def shell_case(r, i):
    """two points just farther away than a shell of grid cells reaches, the
    nearer one behind it and the other one within: whoever takes the shell for
    a little larger than it is stops too early"""
    gr = r.randrange(7, 50)
    gl = f32(1 / gr)
    sh = r.randrange(3, gr - 2)
    side = r.choice([-1, 1])
    ax, b = r.sample(range(3), 2)
    q = [(r.randrange(gr) + r.uniform(0.35, 0.65)) / gr for _ in range(3)]
    at = r.randrange(gr)
    q[b] = ((r.randrange(0, gr - sh - 1) if side > 0 else r.randrange(sh + 1, gr)) + 0.5) / gr
    gap = r.uniform(0.02, 0.3) / gr
    q[ax] = (at + (1 if side > 0 else 0)) * gl - side * gap
    wall = (at + (1 if side > 0 else 0) + side * sh) * gl
    far = abs(wall - q[ax])
    db = 10 ** r.uniform(-9, -7)
    da = db * r.uniform(0.1, 0.9)
    pts = [tuple(q)]
    for x, d, s in ((ax, da, side), (b, db, side)):
        p = list(q)
        p[x] += s * far * (1 + d)
        pts.append(tuple(p))
    if not all(1e-6 < x < 1 - 1e-6 for p in pts for x in p):
        return shell_case(r, i)
    r.shuffle(pts)
    return Case("s%d" % i, pts, fmt="D", tf="double", rec=2, k=1, knn_grid_resolution=gr, cpu_nthreads=1)


def walls(run, exe):
    cs = [wall_case(run.rng, i, ("double", "float")[i % 3 == 2]) for i in range(run.pick(250, 3000))]
    cs += [shell_case(run.rng, i) for i in range(run.pick(150, 1500))]
    cs = [c for c in cs if len(c.pts) > 1]
    obs = tess.record(run, exe, [cs[i::40] for i in range(40)])
    ok = tess.envelope(run, cs, obs)
    recs = []
    for c in cs:
        if c.id not in ok:
            continue
        o = obs[c.id]
        found = [[e[2], e[4]] for e in o.get("ev", []) if e[0] == "F"]
        if not found:
            continue
        pts = [c.pts[i] for i in o["perm"]]
        eps = Fraction(1, 10**5) if c.tf == "float" else Fraction(1, 10**13)
        recs.append(dict(id=c.id, k=min(c.par("k"), len(pts) - 1), pts=[[0, 0, 0]] * len(pts),
                         found=found, rank=[ranks(pts, f[0], eps) for f in found]))
    return recs


def check(run):
    tlc.model(run, "Knn", "MCKnn_flat.cfg")
    tlc.model(run, "Knn", "MCKnn_cube.cfg")
    exe, _ = tess.get_driver(run, small=False)
    cs, gs = cases(run), groups(run)
    gc = [c for _, calls in gs for _, c in calls]
    obs = tess.record(run, exe, [[c] for c in cs + gc])
    ok = tess.envelope(run, cs + gc, obs)
    recs = []
    for c in cs:
        if c.id not in ok:
            continue
        o = obs[c.id]
        n = len(c.pts)
        found = {}
        for e in o.get("ev", []):
            if e[0] == "F":
                found[e[2]] = [e[2], e[4]]
        found = [found[i] for i in sorted(found)]
        if n < 2 or not found:
            continue
        most = run.pick(80, 300) if n <= 300 else run.pick(12, 60)
        if len(found) > most:
            found = run.rng.sample(found, most)
        # with recompute the number grows from round to round
        recs.append(dict(id=c.id, k=0 if c.par("use_recompute") else min(c.par("k"), n - 1),
                         pts=[list(c.pts[i]) for i in o["perm"]],
                         found=found, rank=[]))
    recs += walls(run, exe)
    tlc.validate(run, "KnnTrace", recs, timeout=run.pick(800, 6000))
    run.add("searches_judged", sum(len(q["found"]) for q in recs))
    tess.judge_memo(run, gs, obs, ok, order=False)
    run.sample(cs[0].describe())
    return ["lattice of 1024 units: distances exact in single precision",
            "device search judged by its rows"]

