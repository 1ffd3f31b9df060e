"""C15: the result depends on the set of points only, not on order or history."""
from .. import gen, tess, tlc
from ..tess import Case


def histories(run):
    """One process per history: several point sets, each called several times
    with its points in other orders, between calls of other kinds."""
    r, out = run.rng, []
    for g in range(run.pick(30, 180)):
        big = g % 5 == 4        # many more points than candidates: the search decides
        sets = [gen.doubles(r, r.choice([200, 400, 800] if big else [3, 10, 30, 60, 100]))
                for _ in range(3)]
        conf = []
        for s in range(3):
            n = len(sets[s])
            conf.append(dict(k=r.choice([max(1, n // 2), n - 1, 8] if not big else [6, 10, 16]),
                             cc_p_maxsize=r.choice([24, 64, 128]),
                             cc_t_maxsize=r.choice([32, 96, 200]),
                             use_recompute=r.random() < 0.4,
                             knn_grid_resolution=r.choice([1, 3, 8, 16])))
        calls = []
        for x in range(run.pick(12, 20)):
            s = r.randrange(3)
            t = r.random()
            pts = list(sets[s])
            how = r.randrange(3)
            if how == 0:
                r.shuffle(pts)
            elif how == 1:
                pts.sort(reverse=r.random() < 0.5)
            a = dict(conf[s])
            tf = "double" if s != 1 else "float"
            if t < 0.12:      # a call of another kind in between; not compared
                a["k"] = r.choice([1, 2, 5])
                a["cc_p_maxsize"] = r.choice([7, 10])
                a.update(use_chunking=True, chunksize=2)
                calls.append((("other", x), Case("q%d-%d" % (g, x), pts, fmt="D", tf=tf, **a)))
                continue
            if t < 0.2:       # a call that fails
                a["k"] = r.choice(["abc", -1])
                calls.append((("fail", x), Case("q%d-%d-fails" % (g, x), pts, fmt="D", tf=tf, **a)))
                continue
            a.update(dev_suppress_stdout=False, **tess.mode(r, len(pts), gpu=0.25))
            calls.append(((s, tf), Case("q%d-%d" % (g, x), pts, fmt="D", tf=tf,
                                        ti="int" if x % 3 else "long", **a)))
        alone = {}              # and each kind of call first thing in a process
        for key, c in calls:
            if key[0] not in ("other", "fail") and key not in alone:
                alone[key] = Case("q%d-alone%d" % (g, len(alone)), list(sets[key[0]]), fmt="D",
                                  tf=key[1], dev_suppress_stdout=False, **conf[key[0]])
        out.append(("q%d" % g, calls, sorted(alone.items())))
    return out


def check(run):
    tlc.model(run, "MCTessellate", "MCTess_chunks.cfg")
    exe, _ = tess.get_driver(run, small=False)
    hs = histories(run)
    cs = [c for _, calls, alone in hs for _, c in calls + alone]
    obs = tess.record(run, exe, [[c for _, c in calls] for _, calls, _ in hs] +
                      [[c] for _, _, alone in hs for _, c in alone])
    ok = tess.envelope(run, cs, obs, mayraise={c.id for c in cs if c.id.endswith("-fails")})
    comp = [(h, alone + [(k, c) for k, c in calls if k[0] not in ("other", "fail")])
            for h, calls, alone in hs]
    tess.judge_memo(run, comp, obs, ok, order=False)
    run.add("histories", len(hs))
    run.sample([c.id for _, c in hs[0][1]])
    return ["points in general position, so that ties do not decide"]
