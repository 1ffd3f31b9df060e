"""C04: chunking never changes the result."""
from .. import gen, tess, tlc
from ..tess import Case


def groups(run):
    r, out = run.rng, []
    for g in range(run.pick(24, 160)):
        n = r.choice([1, 2, 3, 5, 8, 13, 24, 40, 64, 90, 130])
        S = 64
        pts = gen.points(r, n, S) if r.random() < 0.8 else gen.degenerate(r, n, S)
        n = len(pts)
        gpu = r.random() < 0.3
        base = dict(k=max(1, r.choice([4, 9, 20, n - 1, n + 3])),
                    knn_grid_resolution=r.choice([1, 2, 4, 7, 16]),
                    cc_p_maxsize=r.choice([12, 24, 64, 128]), cc_t_maxsize=r.choice([20, 48, 128]),
                    cpu_nthreads=r.choice([1, 2, 3, 8]), dev_suppress_stdout=False)
        if r.random() < 0.4:
            base["use_recompute"] = True
        if gpu:
            base["gpu_ndsize"] = r.choice([1, 2, 5, 8, 64])
        sizes = [1, 2, 3, n - 1, n, n + 1, n // 2, n // 2 + 1, n // 3 + 1, 0, -1, -7, 100000]
        sizes = [s for s in dict.fromkeys(sizes)]
        r.shuffle(sizes)
        calls = [("k", Case("g%d-none" % g, pts, S, tf=("double", "float")[g % 2], dev=gpu, gpu=gpu,
                            rec=1, use_chunking=False, chunksize=max(1, n // 2), **base))]
        for s in sizes[:run.pick(7, 13)]:
            calls.append(("k", Case("g%d-c%d" % (g, s), pts, S, tf=("double", "float")[g % 2],
                                    dev=gpu, gpu=gpu, rec=1, use_chunking=True, chunksize=s,
                                    **base)))
        out.append(("g%d" % g, calls))
    # larger than the default chunk size: chunking on with the default
    pts = [(r.randrange(1, 4096), r.randrange(1, 4096), r.randrange(1, 4096)) for _ in range(9000)]
    pts = list(dict.fromkeys(pts))
    big = dict(k=20, knn_grid_resolution=16, cc_p_maxsize=64, cc_t_maxsize=96, cpu_nthreads=4,
               dev_suppress_stdout=False)
    out.append(("big", [("k", Case("big-none", pts, 4096, timeout=60, **big)),
                        ("k", Case("big-def", pts, 4096, timeout=60, use_chunking=True, **big)),
                        ("k", Case("big-1000", pts, 4096, timeout=60, use_chunking=True,
                                   chunksize=1000, **big))]))
    # more points than an unsigned short counts
    pts = list(dict.fromkeys(tuple(r.randrange(1, 4096) for _ in range(3)) for _ in range(66500)))
    big = dict(k=5, knn_grid_resolution=24, cc_p_maxsize=24, cc_t_maxsize=32, cpu_nthreads=7,
               dev_suppress_stdout=False)
    out.append(("huge", [("k", Case("huge-none", pts, 4096, timeout=90, **big)),
                         ("k", Case("huge-c", pts, 4096, timeout=90, use_chunking=True,
                                    chunksize=r.choice([20000, 66000, 33333]), **big))]))
    return out


def check(run):
    tlc.model(run, "MCTessellate", "MCTess_chunks.cfg")
    if run.thorough:
        tlc.prove(run, "Shares", tlc.SHARES)
    exe, _ = tess.get_driver(run)
    gs = groups(run)
    obs = tess.record(run, exe, [[c for _, c in calls] for _, calls in gs])
    cs = [c for _, calls in gs for _, c in calls]
    ok = tess.envelope(run, cs, obs)
    tess.judge_memo(run, gs, obs, ok, order=True)
    tess.judge_orchestration(run, cs, obs, ok, most=run.pick(120, 1500))
    run.sample(gs[0][1][1][1].describe())
    return ["the unchunked call of the same build is the reference"]
