"""C18: every valid call returns a well-formed result, degenerate inputs included."""
from .. import build, gen, tess, tlc
from ..tess import Case

NEAR0 = ["5e-324", "1e-300", "1e-18", "1e-9"]
NEAR1 = ["0.99999999999999988", "0.99999999999999978", "0.999999999"]


def extremes(r, n):
    """coordinates at the very ends of the open interval, pairs one ulp apart"""
    def x():
        t = r.random()
        if t < 0.3:
            return r.choice(NEAR0)
        if t < 0.6:
            return r.choice(NEAR1)
        return repr(r.choice([0.5, 0.25, 1 / 3, r.random() * 0.98 + 0.01]))
    out = [(x(), x(), x()) for _ in range(n)]
    for i in range(0, n - 1, 7):
        p = list(out[i])
        a = r.randrange(3)
        v = float(p[a])
        p[a] = repr(min(v * (1 + 2.3e-16), 0.9999999999999998)) if v else "1e-300"
        out[i + 1] = tuple(p)
    return out


def cases(run, tag, count, big):
    r, out = run.rng, []
    for i in range(count):
        t = i % 10
        n = r.choice([0, 1, 2, 3]) if t == 0 else \
            r.choice([4, 5, 7, 8, 20, 27, 40] + ([64, 90, 125] if big else []))
        tf = "float" if i % 3 == 2 else "double"
        kw = {}
        if t == 0:
            S = 64
            pts = gen.uniform(r, n, S)
            if n > 1 and r.random() < 0.5:
                pts = [pts[0]] * n
        elif t in (1, 2) and tf == "double":
            S, pts, kw = 64, extremes(r, n), dict(fmt="D")
        elif t == 3:
            S = 64
            pts = [r.choice(gen.uniform(r, 3, S))] * n
        elif t == 4:      # all on one sphere
            S = 64
            pts = [p for p in gen.shell(r, n, S)][1:] or [(32, 32, 32)]
        else:
            S = 64
            pts = gen.degenerate(r, n, S)
            r.shuffle(pts)
        n = len(pts)
        if r.random() < 0.4:
            kw.update(use_chunking=True,
                      chunksize=r.choice([-3, 0, 1, 2, 7, n, n + 1, 100000]))
        gpu = r.random() < 0.15
        if gpu:
            kw["gpu_ndsize"] = r.choice([1, 2, 5, 16])
        if r.random() < 0.5:
            kw.update(cc_p_maxsize=r.choice([6, 7, 12, 20, 64, 255, 256] + [33000] * (n < 30)),
                      cc_t_maxsize=r.choice([8, 9, 16, 40, 128] + [33000, 66000] * (n < 30)))
        if r.random() < 0.4:
            kw["use_recompute"] = True
        if r.random() < 0.7:
            kw["k"] = r.choice([1, 2, 3, max(1, n - 1), max(1, n), n + 1, n + 40, 64, 300])
        out.append(Case("%s%d" % (tag, i), pts, S, tf=tf, dev=gpu, gpu=gpu, timeout=30,
                        knn_grid_resolution=r.choice([1, 2, 3, 7, 16, 17, 40, 64]),
                        cpu_nthreads=r.choice([0, 1, 2, n + 3]),
                        dev_suppress_stdout=r.random() < 0.5, **kw))
    return out


def large(run):
    """many points in regular arrangements, big parameters"""
    r, out = run.rng, []
    for i in range(run.pick(5, 30)):
        S = 1024
        pts = gen.degenerate(r, r.choice([500, 1000, 2500]), S)
        r.shuffle(pts)
        kw = dict(use_recompute=True) if len(pts) < 800 else {}
        out.append(Case("l%d" % i, pts, S, tf=("double", "float")[i % 2], timeout=90,
                        k=r.choice([16, 64, 300]), cc_p_maxsize=r.choice([64, 256, 1000]),
                        cc_t_maxsize=r.choice([128, 500, 3000]), cpu_nthreads=r.choice([7, 300]),
                        knn_grid_resolution=r.choice([4, 16]), **kw))
    if run.thorough:      # working storage of more bytes than an int counts
        pts = gen.uniform(r, 10000, 1024)
        out.append(Case("l-store", pts, 1024, k=8, cc_p_maxsize=24, cc_t_maxsize=72000,
                        cpu_nthreads=7, timeout=200))
    return out


def check(run):
    tlc.model(run, "MCCell", "MCCell_small.cfg" if run.thorough else "MCCell_caps.cfg")
    tlc.model(run, "MCTessellate", "MCTess_limits.cfg")
    san = [("asan", ["-O1", "-g", "-DVERIF_SMALL", "-fsanitize=address,undefined",
                     "-fno-sanitize=float-divide-by-zero,float-cast-overflow",
                     "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"] + build.STUB),
           ("asan-only", ["-O1", "-DVERIF_SMALL", "-fsanitize=address"] + build.STUB)]
    (exe, _), (aexe, _) = build.parallel([
        lambda: tess.get_driver(run),
        lambda: build.driver(run, "drv_tess", san)])
    cs = cases(run, "a", run.pick(300, 3000), True)
    obs = tess.record(run, exe, [[c] for c in cs])
    tess.envelope(run, cs, obs)
    ls = large(run)
    tess.envelope(run, ls, tess.record(run, exe, [[c] for c in ls], nproc=2))
    if aexe is None:
        run.notes.append("sanitizer build failed; memory judged by results only")
    else:
        ac = cases(run, "s", run.pick(200, 2000), False)
        aobs = tess.record(run, aexe, [[c] for c in ac],
                           env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=67",
                                "UBSAN_OPTIONS": "halt_on_error=1:exitcode=68"})
        tess.envelope(run, ac, aobs)
        run.add("calls_under_sanitizers", len(ac))
    run.sample(cs[0].describe())
    return ["coordinates strictly between 0 and 1; k, thread and work sizes at least 1"]
