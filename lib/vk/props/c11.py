"""C11: the GPU path gives the CPU result for every work size and chunking."""
from .. import gen, tess, tlc
from ..tess import Case
from . import c06


def groups(run):
    r, out = run.rng, []
    for g in range(run.pick(40, 260)):
        n = r.choice([1, 2, 3, 4, 7, 12, 20, 33, 50, 80])
        S = r.choice([64, 200])
        pts = gen.points(r, n, S) if r.random() < 0.85 else gen.degenerate(r, n, S)
        n = len(pts)
        tf = ("double", "float")[g % 2]
        ti = "int"
        base = dict(k=max(1, r.choice([1, 3, 8, 16, n - 1, n, n + 5])),
                    knn_grid_resolution=r.choice([1, 2, 3, 5, 8, 16]),
                    cc_p_maxsize=r.choice([6, 9, 13, 20, 32, 64, 128, 255, 300]),
                    cc_t_maxsize=r.choice([8, 14, 24, 48, 128, 256]),
                    dev_suppress_stdout=False)
        if g % 13 == 5:
            base["knn_grid_resolution"] = r.choice([40, 64])
        if r.random() < 0.25:
            base["use_recompute"] = True
        calls = [("k", Case("d%d-cpu" % g, pts, S, ti=ti, tf=tf, cpu_nthreads=2, **base))]
        for x in range(run.pick(6, 12)):
            a = dict(base)
            a["gpu_ndsize"] = r.choice([1, 2, 3, 4, 7, 8, 16, n, n + 1, 64, 0, -3])
            if r.random() < 0.6:
                a.update(use_chunking=True,
                         chunksize=r.choice([1, 2, 3, max(1, n // 2), max(1, n - 1), n, n + 1, 0]))
            gpu = x % 3 != 2       # else: asked for a device that is not there
            calls.append(("k", Case("d%d-%d" % (g, x), pts, S, ti=ti, tf=tf, dev=1, gpu=gpu,
                                    order=r.choice([0, 1, 2, 3, 4, 5, 7, 9, 11, 13, 15, 17]),
                                    cpu_nthreads=3, **a)))
        out.append(("d%d" % g, calls))
    # capacities far larger than any cell
    for g in range(2):
        pts = gen.points(r, 9, 64)
        a = dict(k=8, knn_grid_resolution=2, cc_p_maxsize=(33000, 66000)[g], timeout=60,
                 cc_t_maxsize=(66000, 33000)[g], dev_suppress_stdout=False)
        out.append(("cap%d" % g, [("k", Case("cap%d-cpu" % g, pts, 64, **a)),
                                  ("k", Case("cap%d-gpu" % g, pts, 64, dev=1, gpu=1, gpu_ndsize=3, **a))]))
    # points next to the walls of grid cells
    for g in range(run.pick(120, 1200)):
        c = c06.shell_case(r, g) if g % 4 == 1 else c06.wall_case(r, g, ("double", "float")[g % 3 == 2])
        n = len(c.pts)
        k = c.par("k")
        eps = c06.Fraction(1, 10**5) if c.tf == "float" else c06.Fraction(1, 10**13)
        if n < 2 or k < n - 1 and any(sorted(q)[k] == sorted(q)[k + 1]
                                      for q in (c06.ranks(c.pts, i, eps) for i in range(n))):
            continue       # a tie decides
        a = dict(tf=c.tf, k=k, knn_grid_resolution=c.par("knn_grid_resolution"), cc_p_maxsize=64,
                 cc_t_maxsize=96, dev_suppress_stdout=False)
        out.append(("w%d" % g, [("k", Case("w%d-cpu" % g, c.pts, fmt="D", cpu_nthreads=1, **a)),
                                ("k", Case("w%d-gpu" % g, c.pts, fmt="D", dev=1, gpu=1, gpu_ndsize=4,
                                           order=5, **a))]))
    # k of more than a byte
    pts = gen.points(r, 330, 1024)
    a = dict(k=300, knn_grid_resolution=3, cc_p_maxsize=250, cc_t_maxsize=400, timeout=60,
             dev_suppress_stdout=False)
    out.append(("kbig", [("k", Case("kbig-cpu", pts, 1024, cpu_nthreads=7, **a))] +
                [("k", Case("kbig-%d" % c, pts, 1024, dev=1, gpu=1, order=5, gpu_ndsize=16,
                            use_chunking=c > 0, chunksize=max(1, c), **a)) for c in (0, 300)]))
    # one with a fine grid and one with many points
    a = dict(k=12, cc_p_maxsize=64, cc_t_maxsize=96, dev_suppress_stdout=False)
    pts = []
    for b in ((1000, 1000, 1000), (1, 1, 1), (1000, 1, 500), (1, 1005, 1002)):
        pts += [tuple((x + 18 * r.random()) / 1024 for x in b) for _ in range(16)]
    f = dict(a, k=7, knn_grid_resolution=260)
    out.append(("fine", [("k", Case("fine-cpu", pts, fmt="D", **f)),
                         ("k", Case("fine-gpu", pts, fmt="D", dev=1, gpu=1, order=3, gpu_ndsize=4,
                                    timeout=60, **f))]))
    pts = [(r.randrange(1, 4096), r.randrange(1, 4096), r.randrange(1, 4096)) for _ in range(1500)]
    pts = list(dict.fromkeys(pts))
    out.append(("many", [("k", Case("many-cpu", pts, 4096, **a))] +
                [("k", Case("many-gpu%d" % c, pts, 4096, dev=1, gpu=1, order=5, gpu_ndsize=32,
                            use_chunking=c > 0, chunksize=max(1, c), timeout=60, **a))
                 for c in (0, 400)]))
    # more than 16 bits can number
    pts = gen.doubles(r, 66500)
    a = dict(k=4, cc_p_maxsize=16, cc_t_maxsize=24, knn_grid_resolution=40, dev_suppress_stdout=False,
             timeout=50)
    out.append(("huge", [("k", Case("huge-cpu", pts, fmt="D", cpu_nthreads=4, **a)),
                         ("k", Case("huge-gpu", pts, fmt="D", dev=1, gpu=1, order=r.choice([0, 3, 5]),
                                    gpu_ndsize=64, **a))]))
    return out


def check(run):
    tlc.model(run, "Device", "MCDevice_more.cfg" if run.thorough else "MCDevice.cfg")
    exe, label = tess.get_driver(run)
    if label == "sycl":
        run.notes.append("the device stand-in does not build with this tree; only the fallback was run")
    gs = groups(run)
    fs = [tess.frame_case(run.rng, "x%d" % i, ("double", "double", "float")[i % 3], dev=1, gpu=1, order=i % 6,
                          gpu_ndsize=run.rng.choice([1, 4, 16]), knn_grid_resolution=run.rng.choice([1, 2, 6, 16]))
          for i in range(run.pick(150, 1500))]
    obs = tess.record(run, exe, [[c for _, c in calls] for _, calls in gs] + [fs[i::10] for i in range(10)])
    tess.judge_frames(run, fs, obs, tess.envelope(run, fs, obs))
    cs = [c for _, calls in gs for _, c in calls]
    ok = tess.envelope(run, cs, obs)
    tess.judge_memo(run, gs, obs, ok, order=True)
    run.add("device_calls", sum(bool(obs.get(c.id, {}).get("dev", {}).get("kernels")) for c in cs))
    run.add("fallback_calls", sum(c.dev and not c.gpu for c in cs))
    tess.judge_cells(run, [c for c in cs if c.gpu and c.id in ok and c.fmt == "L"][:run.pick(60, 300)], obs, ok,
                     sample=12)
    run.sample(gs[0][1][1][1].describe())
    return ["the device is a host stand-in for SYCL (harness/sycl_stub): any order of work items, "
            "memory nobody wrote holds garbage; groups do not run at the same time",
            "the CPU pass of the same build is the reference, and TLC's exact cells"]
