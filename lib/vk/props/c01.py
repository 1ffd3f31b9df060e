"""C01: rows are exactly the Voronoi face neighbours."""
from .. import build, gen, tess, tlc
from ..tess import Case


def cases(run):
    r, out = run.rng, []
    TI, TF = ("int", "long"), ("double", "float")
    for i in range(run.pick(70, 500)):
        n = r.choice([5, 9, 17, 33, 60, 80, 100, 120])
        tf = TF[i % 3 == 2]
        S = 64 if tf == "float" else r.choice([64, 64, 128, 200])
        pts = gen.points(r, n, S)
        k = r.choice([len(pts) - 1, len(pts) + 5, 64, 40, 24, 12, 6])
        out.append(Case("a%d" % i, pts, S, ti=TI[i % 2], tf=tf, k=max(1, k),
                        knn_grid_resolution=r.choice([1, 2, 3, 4, 5, 7, 8, 16, 31]),
                        cc_p_maxsize=r.choice([64, 128, 250]),
                        cc_t_maxsize=r.choice([96, 128, 300]), dev_suppress_stdout=False,
                        **tess.mode(r, len(pts), rc=0.15)))
    for i in range(run.pick(2, 12)):     # many points, defaults, some cells judged
        pts = gen.points(r, r.choice([1500, 3000]), 1024, r.choice([gen.uniform, gen.skew]))
        out.append(Case("b%d" % i, pts, 1024, ti=TI[i % 2], timeout=60, cc_p_maxsize=64,
                        cc_t_maxsize=96, knn_grid_resolution=r.choice([6, 12, 16]), k=80))
    for i in range(run.pick(2, 10)):     # one cell with a great many faces
        pts = gen.points(r, r.choice([180, 215, 235]), (200, 128)[i % 2], gen.shell)
        out.append(Case("m%d" % i, pts, (200, 128)[i % 2], ti=TI[i % 2], k=len(pts), cc_p_maxsize=255,
                        cc_t_maxsize=600, knn_grid_resolution=r.choice([1, 4, 9]), timeout=60))
    return out


def clusters(run):
    """tight clusters: the whole lattice within a small part of the cube"""
    r, out = run.rng, []
    for i in range(run.pick(10, 80)):
        pts = gen.points(r, r.choice([40, 90, 120]), 64, r.choice([gen.uniform, gen.clustered, gen.skew]))
        e = r.choice([2, 4, 6, 8, 10, 12])
        unit = 2.0 ** -(6 + e)
        off = [r.randrange(0, 2 ** e) * 2.0 ** -e for _ in range(3)]
        out.append(Case("s%d" % i, pts, 64, ti=("int", "long")[i % 2], place=(off, unit), k=len(pts),
                        knn_grid_resolution=r.choice([1, 4, 9, 16, 40]), cc_p_maxsize=200,
                        cc_t_maxsize=400))
    return out


def types(run):
    """the less usual types"""
    r, out = run.rng, []
    for i in range(run.pick(9, 60)):
        ti, tf = (("short", "double"), ("llong", "float"), ("int", "ldouble"))[i % 3]
        pts = gen.points(r, r.choice([20, 60, 110, 300]), 64)
        gpu = i % 2
        out.append(Case("t%d" % i, pts, 64, ti=ti, tf=tf, k=r.choice([64, 24, 12]), dev=gpu, gpu=gpu,
                        knn_grid_resolution=r.choice([1, 4, 9]), cc_p_maxsize=r.choice([64, 128]),
                        cc_t_maxsize=r.choice([96, 200]), use_recompute=i % 4 == 3, gpu_ndsize=8))
    for i in range(run.pick(20, 200)):
        out.append(tess.frame_case(r, "y%d" % i, "ldouble", knn_grid_resolution=r.choice([1, 3, 8]),
                                   dev=i % 3 == 1, gpu=i % 3 == 1, gpu_ndsize=8))
    # a short numbers the points, but not the entries of the working storage
    for i in range(run.pick(2, 8)):
        pts = gen.uniform(r, r.choice([700, 1200]), 1024)
        out.append(Case("u%d" % i, pts, 1024, ti="short", tf="double", k=60, dev=i % 2, gpu=i % 2, timeout=90,
                        knn_grid_resolution=6, cc_p_maxsize=128, cc_t_maxsize=200, gpu_ndsize=8))
    return out


def large(run):
    """more points than 16 bits can number"""
    r, out = run.rng, []
    for i in range(run.pick(1, 4)):
        pts = gen.uniform(r, 67000 + r.randrange(1000), 1024)
        out.append(Case("l%d" % i, pts, 1024, ti=("int", "long")[(i + run.seed) % 2],
                        tf=("float", "double")[(i + run.seed) // 2 % 2], timeout=120, k=r.choice([24, 40]),
                        cc_p_maxsize=64, cc_t_maxsize=96, knn_grid_resolution=r.choice([20, 24, 32]),
                        **(dict(use_chunking=True) if i % 2 else {})))
    return out


def check(run):
    tlc.model(run, "MCCell", "MCCell_generic.cfg")
    if run.thorough:
        tlc.model(run, "MCCell", "MCCell_small.cfg")
        tlc.model(run, "MCCell", "MCCell_more.cfg", timeout=3000)
    (exe, _), (texe, tlog) = build.parallel([
        lambda: tess.get_driver(run, small=False),
        lambda: build.driver(run, "drv_tess", build.tess_variants(extra=["-DVERIF_TYPES"])[1:])])
    cs = cases(run) + clusters(run)
    big = large(run)
    ts = types(run)
    if texe is None:
        run.notes.append("the driver with unusual types does not build; they were left out")
    else:
        tobs = tess.record(run, texe, [[c] for c in ts])
        tok = tess.envelope(run, ts, tobs)
        us = [c for c in ts if c.id[0] == "u"]
        ys = [c for c in ts if c.id[0] == "y"]
        tess.judge_cells(run, [c for c in ts if c not in us + ys], tobs, tok, rep=False, sample=80)
        tess.judge_frames(run, ys, tobs, tok)
        tess.judge_windows(run, us, tobs, tok, 12)
    fs = [tess.frame_case(run.rng, "x%d" % i, ("double", "double", "float")[i % 3], dev=i % 4 == 1, gpu=i % 4 == 1,
                          gpu_ndsize=8, knn_grid_resolution=run.rng.choice([1, 2, 6, 16]))
          for i in range(run.pick(300, 3000))]
    obs = tess.record(run, exe, [[c] for c in big + cs] + [fs[i::30] for i in range(30)])
    ok = tess.envelope(run, big + cs + fs, obs)
    tess.judge_frames(run, fs, obs, ok)
    tess.judge_cells(run, cs, obs, ok, rep=False, sample=200)
    tess.judge_windows(run, big, obs, ok, run.pick(150, 1500))
    run.sample(cs[0].describe())
    run.sample(dict(row_of_point_0=obs[cs[0].id].get("rows", [[]])[0]))
    return ["points on a lattice with exactly representable coordinates",
            "cells with a vertex exactly on (single precision: near) a bisector are not judged"]
