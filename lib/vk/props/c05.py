"""C05: threads and schedules never change the result; no data races."""
from .. import build, gen, tess, tlc
from ..tess import Case


def groups(run, tag, count, scheds, big):
    r, out = run.rng, []
    for g in range(count):
        n = r.choice([1, 2, 4, 7, 16, 33, 60] + ([100, 150] if big else []))
        S = 64
        pts = gen.points(r, n, S) if r.random() < 0.8 else gen.degenerate(r, n, S)
        n = len(pts)
        base = dict(k=max(1, r.choice([3, 8, 16, n - 1])),
                    knn_grid_resolution=r.choice([1, 2, 4, 9]),
                    cc_p_maxsize=r.choice([12, 32, 64]), cc_t_maxsize=r.choice([20, 64, 128]),
                    dev_suppress_stdout=False)
        if r.random() < 0.5:
            base["use_recompute"] = True
        chunk = {}
        if r.random() < 0.5:
            chunk = dict(use_chunking=True, chunksize=r.choice([1, 2, 5, max(1, n // 2)]))
        tf = ("double", "float")[g % 2]
        calls = [("k", Case("%s%d-ref" % (tag, g), pts, S, tf=tf, rec=1, cpu_nthreads=1,
                            **dict(base)))]
        for t in r.sample([1, 2, 3, 4, 5, 7, 8, n - 1, n, n + 1, n + 9, 0], scheds):
            if t < 0:
                continue
            calls.append(("k", Case("%s%d-t%d-%d" % (tag, g, t, len(calls)), pts, S, tf=tf, rec=1,
                                    sched=r.randrange(1, 1 << 30), cpu_nthreads=t,
                                    **{**base, **chunk})))
        out.append(("%s%d" % (tag, g), calls))
    if big:       # many workers, many points
        pts = list(dict.fromkeys(tuple(r.randrange(1, 4096) for _ in range(3)) for _ in range(3000)))
        base = dict(k=24, knn_grid_resolution=8, cc_p_maxsize=64, cc_t_maxsize=96, timeout=60,
                    dev_suppress_stdout=False)
        out.append(("many", [("k", Case("many-%d" % t, pts, 4096, cpu_nthreads=t, use_recompute=True, **base))
                             for t in (2, 40, 260, 300, 512)] +
                            [("n", Case("many-%d" % t, pts, 4096, cpu_nthreads=t, **base))
                             for t in (1, 257, 256, 1024, 7)]))
    return out


def check(run):
    tlc.model(run, "MCTessellate", "MCTess_chunks.cfg")
    if run.thorough:
        tlc.prove(run, "Shares", tlc.SHARES)
    if run.thorough:
        tlc.model(run, "MCTessellate", "MCTess_recompute.cfg")
    tsan = [("tsan", ["-O1", "-g", "-DVERIF_SMALL", "-fsanitize=thread"] + build.STUB)]
    (exe, _), (texe, tlog) = build.parallel([
        lambda: tess.get_driver(run),
        lambda: build.driver(run, "drv_tess", tsan)])
    gs = groups(run, "s", run.pick(24, 200), 6, True)
    obs = tess.record(run, exe, [[c for _, c in calls] for _, calls in gs])
    cs = [c for _, calls in gs for _, c in calls]
    ok = tess.envelope(run, cs, obs)
    # order of the points and, without ties, everything else as with one thread
    tess.judge_memo(run, gs, obs, ok, order=True)
    tess.judge_orchestration(run, cs, obs, ok, most=run.pick(140, 1500))
    # the same on a build in which unordered accesses end the process
    if texe is None:
        run.notes.append("race detector build failed; races judged by results only")
    else:
        ts = groups(run, "r", run.pick(12, 100), 4, False)
        tobs = tess.record(run, texe, [[c for _, c in calls] for _, calls in ts], nproc=4,
                           env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_bugs=1"})
        tcs = [c for _, calls in ts for _, c in calls]
        for o in tobs.values():
            if o["end"] == "crash" and o.get("exit") == 66:
                o["end"] = "race"
        tess.envelope(run, tcs, tobs)
        run.add("calls_under_race_detector", len(tcs))
    run.sample(gs[0][1][1][1].describe())
    return ["schedules are perturbed at random at the instrumentation points, not enumerated; "
            "the model enumerates them for up to three workers"]
