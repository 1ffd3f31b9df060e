"""C02: certified cells are final and the report counts them exactly."""
from .. import gen, tess, tlc
from ..tess import Case


def cases(run):
    r, out = run.rng, []
    for i in range(run.pick(60, 480)):
        n = r.choice([8, 20, 40, 60, 80, 100, 120])
        tf = "float" if i % 5 == 4 else "double"
        S = 64 if tf == "float" else r.choice([64, 104, 200])
        pts = gen.points(r, n, S)
        k = r.choice([len(pts) - 1, 64, 40, 30, 24, 18, 12, 6])
        P, T = 128, 256
        if i % 6 == 5:      # a cell whose capacity runs out is not complete either
            P, T = r.choice([(9, 256), (14, 256), (128, 12), (128, 20), (12, 16)])
        out.append(Case("a%d" % i, pts, S, tf=tf, k=max(1, k), rec=1, dev_suppress_stdout=False,
                        knn_grid_resolution=r.choice([1, 2, 4, 7, 16]), cc_p_maxsize=P,
                        cc_t_maxsize=T, **tess.mode(r, len(pts), rc=0.15)))
    return out


def histories(run):
    r, out = run.rng, []
    for g in range(run.pick(10, 80)):
        n = r.choice([30, 80, 150, 300, 600])
        pts = gen.doubles(r, n)
        calls = [(True, Case("h%d-all" % g, pts, fmt="D", rec=1, k=n, cc_p_maxsize=250,
                             cc_t_maxsize=500, timeout=60, dev_suppress_stdout=False))]
        for k in r.sample([4, 8, 12, 16, 24, 32, 48, 64, 100, 140, 200], 5):
            calls.append((False, Case("h%d-k%d" % (g, k), pts, fmt="D", rec=1, k=k,
                                      knn_grid_resolution=r.choice([2, 5, 8, 16]),
                                      cc_p_maxsize=r.choice([32, 64, 250]),
                                      cc_t_maxsize=r.choice([64, 128, 500]), timeout=60,
                                      dev_suppress_stdout=False, **tess.mode(r, n, gpu=0))))
        out.append(("h%d" % g, calls))
    return out


def crowds(run):
    """more cells of a kind than a short integer counts"""
    r, out = run.rng, []
    for i, (n, k) in enumerate([(66500, 1), (33500, 3)] + [(67000, 30)] * run.pick(0, 2)):
        out.append(Case("c%d" % i, tess.crowd(r, n), 4096, tf=("float", "double")[i % 2], rec=1,
                        tally=True, timeout=90, k=k, knn_grid_resolution=32, cc_p_maxsize=40,
                        cc_t_maxsize=64, cpu_nthreads=7, dev_suppress_stdout=False))
    return out


def limits(run):
    """the deciding point is twice as far away as the farthest vertex, but for
    a hair"""
    return [tess.limit_case(run.rng, "l%d" % i, ("double", "double", "float")[i % 3])
            for i in range(run.pick(120, 1500))]


def check(run):
    tlc.model(run, "MCCell", "MCCell_generic.cfg")
    if run.thorough:
        tlc.model(run, "MCCell", "MCCell_small.cfg")
    exe, _ = tess.get_driver(run)
    cs, hs, big, near = cases(run), histories(run), crowds(run), limits(run)
    hc = [c for _, calls in hs for _, c in calls]
    obs = tess.record(run, exe, [[c] for c in big + cs + hc] + [near[i::20] for i in range(20)])
    ok = tess.envelope(run, big + cs + hc, obs, want=True)
    tess.judge_cells(run, cs, obs, ok)
    tess.judge_final(run, hs, obs, ok)
    tess.judge_frames(run, near, obs, tess.envelope(run, near, obs))
    run.sample(cs[0].describe())
    run.sample(dict(report=tess.report(obs[cs[0].id])))
    return ["cells too close to the limit for exact integer arithmetic may be counted either way",
            "FinalTrace: general position (random doubles)"]
