"""C03: recompute completes every cell and terminates."""
from .. import gen, tess, tlc
from ..tess import Case


def cases(run):
    r, out = run.rng, []
    for i in range(run.pick(50, 400)):
        n = r.choice([2, 3, 5, 12, 30, 50, 70, 90])
        tf = "float" if i % 6 == 5 else "double"
        S = 64 if tf == "float" else r.choice([64, 64, 104, 200])
        kind = gen.shell if i % 5 == 0 else None
        pts = gen.points(r, n, S, kind)
        n = len(pts)
        gpu = r.random() < 0.25
        extra = dict(use_chunking=True, chunksize=r.choice([1, 4, max(1, n // 2), n])) \
            if r.random() < 0.4 else {}
        if gpu:
            extra["gpu_ndsize"] = r.choice([1, 3, 8])
        out.append(Case("a%d" % i, pts, S, tf=tf, dev=gpu, gpu=gpu, rec=1, use_recompute=True,
                        k=r.choice([1, 2, 3, 5, 8, 16, max(1, n - 1), n + 7]),
                        knn_grid_resolution=r.choice([1, 2, 4, 9]),
                        cc_p_maxsize=r.choice([7, 8, 10, 16, 32, 64, 255]),
                        cc_t_maxsize=r.choice([8, 10, 16, 32, 64, 128]),
                        cpu_nthreads=r.choice([1, 2, 5, n + 1]), dev_suppress_stdout=False,
                        **extra))
    # capacities far larger than any cell
    for i in range(run.pick(4, 24)):
        pts = gen.points(r, r.choice([6, 12, 20]), 64)
        out.append(Case("w%d" % i, pts, 64, rec=1, dev=i % 4 == 3, gpu=i % 4 == 3, timeout=60, k=r.choice([4, 9, 30]),
                        cc_p_maxsize=[33000, 255, 66000, 128][i % 4], gpu_ndsize=4,
                        cc_t_maxsize=[600, 33000, 140, 66500][i % 4], dev_suppress_stdout=False, use_recompute=True))
    return out


def histories(run):
    """complete rows stay; the recomputed result is the one of the full k"""
    r, out = run.rng, []
    for g in range(run.pick(8, 60)):
        n = r.choice([20, 60, 120, 250])
        pts = gen.doubles(r, n, 0 if g == 0 else None)
        mk = lambda tag, all_, **a: (all_, Case("h%d-%s" % (g, tag), pts, fmt="D", rec=1,
                                               timeout=60, dev_suppress_stdout=False, **a))
        calls = [mk("all", True, k=n, cc_p_maxsize=250, cc_t_maxsize=500)]
        for k in (r.choice([2, 5]), r.choice([10, 20]), 40):
            a = dict(k=k, cc_p_maxsize=r.choice([8, 24, 64]), cc_t_maxsize=r.choice([12, 40, 96]),
                     knn_grid_resolution=r.choice([2, 6, 16]))
            calls.append(mk("n%d" % k, False, **a))
            calls.append(mk("r%d" % k, True, use_recompute=True, **a, **tess.mode(r, n)))
        out.append(("h%d" % g, calls))
    # neighbours that are not among the nearest hundreds: two crowds far apart
    for g in range(run.pick(3, 8)):
        n = (r.choice([300, 420]), r.choice([8, 30]))
        pts = [tuple(c + 0.22 * r.random() for _ in range(3))
               for c, m in zip((0.03, 0.74), n) for _ in range(m)]
        if g % 2 == 1:     # and a cell with hundreds of vertices: points around a centre
            pts = [(0.5, 0.5, 0.5)]
            for _ in range(230 if g == 1 else r.choice([150, 200, 230])):
                d = [r.gauss(0, 1) for _ in range(3)]
                q = r.uniform(0.3, 0.3001) / sum(x * x for x in d) ** 0.5
                pts.append(tuple(0.5 + x * q for x in d))
        mk = lambda tag, **a: (True, Case("f%d-%s" % (g, tag), pts, fmt="D", rec=1, timeout=60,
                                          dev_suppress_stdout=False, **a))
        out.append(("f%d" % g, [mk("all", k=len(pts), cc_p_maxsize=250, cc_t_maxsize=500),
                                mk("r", k=1, use_recompute=True),
                                mk("s", k=r.choice([2, 3, 7]), use_recompute=True, cc_p_maxsize=8,
                                   cc_t_maxsize=10),
                                # one kind of space short only, all candidates from the start
                                mk("t", k=len(pts), use_recompute=True, cc_p_maxsize=255,
                                   cc_t_maxsize=r.choice([8, 16, 32, 64])),
                                mk("p", k=len(pts), use_recompute=True, cc_t_maxsize=512,
                                   cc_p_maxsize=7 if g == 1 else r.choice([7, 8, 16, 32]))]))
    return out


def large(run):
    """more unfinished cells than 15 or 16 bits can count"""
    return [Case("l%d" % i, gen.uniform(run.rng, n, 1024), 1024, k=run.rng.choice([6, 8]), use_recompute=True,
                 timeout=150, knn_grid_resolution=20, cc_p_maxsize=64, cc_t_maxsize=96, cpu_nthreads=7,
                 dev_suppress_stdout=False) for i, n in enumerate([33500] + [66500] * run.pick(0, 2))]


def check(run):
    tlc.model(run, "MCTessellate", "MCTess_recompute.cfg")
    tlc.model(run, "MCTessellate", "MCTess_limits.cfg")
    if run.thorough:
        tlc.prove(run, "Grow", tlc.GROW)
    exe, _ = tess.get_driver(run)
    cs, hs = cases(run), histories(run)
    hc = [c for _, calls in hs for _, c in calls]
    big = large(run)
    obs = tess.record(run, exe, [[c] for c in big + cs + hc])
    ok = tess.envelope(run, big + cs + hc, obs, want=True)
    # (away from the walls no point beyond the 250th is near enough to cut)
    tess.judge_windows(run, big, obs, ok, run.pick(40, 300), k=250, margin=0.12)
    tess.judge_cells(run, cs, obs, ok)
    tess.judge_final(run, hs, obs, ok)
    tess.judge_orchestration(run, cs, obs, ok)
    run.sample(cs[0].describe())
    return ["cells fit 255 planes and 512 vertices"]
