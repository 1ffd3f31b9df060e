"""C10: capacity overflow is reported and confined to its cell."""
from .. import build, gen, tess, tlc
from ..tess import Case


def cases(run, tag, count, big=True):
    r, out = run.rng, []
    for i in range(count):
        n = r.choice([4, 10, 25, 40, 60, 90] if big else [4, 10, 25])
        tf = "float" if i % 6 == 5 else "double"
        S = 64 if tf == "float" else r.choice([64, 104, 200])
        pts = gen.points(r, n, S, gen.shell if i % 4 == 0 else None)
        n = len(pts)
        t = r.randrange(4)
        pm = r.choice([6, 7, 9, 12, 15, 18, 22, 26, 31]) if t != 1 else r.choice([128, 255, 256, 300])
        tm = r.choice([8, 10, 12, 16, 20, 26, 32, 40]) if t != 0 else r.choice([128, 512, 600])
        gpu = r.random() < 0.2
        extra = {}
        if r.random() < 0.4:
            extra = dict(use_chunking=True, chunksize=r.choice([1, 2, max(1, n // 2)]))
        if gpu:
            extra["gpu_ndsize"] = r.choice([1, 3, 8])
        out.append(Case("%s%d" % (tag, i), pts, S, tf=tf, dev=gpu, gpu=gpu, rec=1,
                        k=r.choice([n, 40, 20, 10]), cc_p_maxsize=pm, cc_t_maxsize=tm,
                        knn_grid_resolution=r.choice([1, 2, 5]), cpu_nthreads=r.choice([1, 2, 4]),
                        dev_suppress_stdout=False, **extra))
    return out


def ample(run):
    r, out = run.rng, []
    # capacities far larger than any cell
    for i in range(run.pick(4, 24)):
        pts = gen.points(r, r.choice([6, 12, 20]), 64)
        out.append(Case("w%d" % i, pts, 64, rec=1, dev=i % 4 == 3, gpu=i % 4 == 3, timeout=60, k=r.choice([4, 9, 30]),
                        cc_p_maxsize=[33000, 255, 66000, 128][i % 4], gpu_ndsize=4,
                        cc_t_maxsize=[600, 33000, 140, 66500][i % 4], dev_suppress_stdout=False))
    return out


def crowds(run):
    """more overflows than a short integer counts, of each kind"""
    return [Case("c%d" % i, tess.crowd(run.rng, 40000), 4096, tf="float", rec=1, tally=True,
                 timeout=90, k=14, knn_grid_resolution=32, cc_p_maxsize=pm, cc_t_maxsize=tm,
                 cpu_nthreads=7, dev_suppress_stdout=False)
            for i, (pm, tm) in enumerate([(64, 9), (8, 64)])]


def check(run):
    tlc.model(run, "MCCell", "MCCell_caps.cfg")
    san = [("asan", ["-O1", "-g", "-DVERIF_SMALL", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"] + build.STUB),
           ("asan-only", ["-O1", "-DVERIF_SMALL", "-fsanitize=address"] + build.STUB)]
    (exe, _), (aexe, alog) = build.parallel([
        lambda: tess.get_driver(run),
        lambda: build.driver(run, "drv_tess", san)])
    cs, big = cases(run, "a", run.pick(70, 500)) + ample(run), crowds(run)
    obs = tess.record(run, exe, [[c] for c in big + cs])
    ok = tess.envelope(run, big + cs, obs, want=True)
    tess.judge_cells(run, cs, obs, ok)
    if aexe is None:
        run.notes.append("sanitizer build failed; memory judged by results only")
    else:
        ac = cases(run, "s", run.pick(60, 400), big=False)
        for c in ac[::2]:           # one slot at a time: its storage is the whole buffer
            c.args.update(use_chunking=True, chunksize=1)
        aobs = tess.record(run, aexe, [[c] for c in ac],
                           env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=67",
                                "UBSAN_OPTIONS": "halt_on_error=1:exitcode=68"})
        aok = tess.envelope(run, ac, aobs)
        tess.judge_cells(run, ac, aobs, aok)
        run.add("calls_under_sanitizers", len(ac))
    run.sample(cs[0].describe())
    run.sample(dict(report=tess.report(obs[cs[0].id])))
    return ["capacities at least those of the initial cube (6 planes, 8 vertices)"]
