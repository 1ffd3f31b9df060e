"""C17: the bounded heap keeps the k smallest and sorts them, in its segment."""
import itertools
from .. import tlc, unit


def check(run):
    r = run.rng
    tlc.model(run, "Heap", "MCHeap.cfg")
    exe, dev = unit.get(run, "drv_heap")
    if exe is None:
        return ["heap driver not built"]
    lines = []

    bulk = {}

    def add(lay, ty, k, seg, nseg, vals, word="HEAP"):
        i = "%s%d" % (lay, len(lines))
        if word == "BULK":
            bulk[i] = vals
        lines.append((i, word + " %s %s %s %d %d %d %s" %
                      (i, lay, ty, k, seg, nseg, " ".join(map(str, vals)))))
    lays = ["v", "a", "i"] if dev else ["v"]
    # the model's own inputs: every short sequence over few values
    small = [(k, v) for k in (1, 2, 3, 4) for v in itertools.product((1, 2, 3), repeat=5)]
    for k, v in small if run.thorough else r.sample(small, 500):
        add(r.choice(lays), r.choice("df"), k, r.randrange(3), 3, v)
    for x in range(run.pick(250, 3000)):
        k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64])
        m = r.choice([0, 1, k - 1, k, k + 1, 2 * k, 3 * k + 5])
        t = r.randrange(4)
        vals = [r.randrange(1, 1000) for _ in range(m)] if t == 0 else \
               [r.randrange(1, 4) for _ in range(m)] if t == 1 else \
               list(range(1, m + 1)) if t == 2 else list(range(m, 0, -1))
        nseg = r.choice([1, 2, 3, 7])
        add(r.choice(lays), r.choice("df"), k, r.randrange(nseg), nseg, vals)
    for k in [130, 200, 257, 300] + ([350, 400] if run.thorough else []):
        m = k + r.randrange(5, 120)
        vals = [r.randrange(1, 100000 if r.random() < 0.6 else 40) for _ in range(m)]
        for lay in lays:
            add(lay, "df"[k % 2], k, r.randrange(3), 3, vals)
    for k in [33000, 66000] + ([1000, 5000, 40000, 70000] if run.thorough else []):
        m = k + r.randrange(1, k // 2)
        vals = [r.randrange(1, 900000 if r.random() < 0.7 else 40) for _ in range(m)]
        for lay in lays:
            add(lay, "df"[k % 2], k, r.randrange(2), 2, vals, "BULK")
    obs = unit.observe(run, exe, lines)
    ks = {i: int(t.split()[4]) for i, t in lines}
    recs = []
    for i, _ in lines:
        o = obs.get(i)
        if o:
            recs.append(dict(id=i, end=o["end"], k=o.get("k", ks[i]), steps=o.get("steps", []),
                             sorted=o.get("sorted", []), bulk=bulk.get(i, []), outside=o.get("outside", 0)))
    # some device layouts may not be there
    for b in range(0, len(recs), 1500):
        tlc.validate(run, "HeapTrace", recs[b:b + 1500], timeout=1500)
    run.add("insertions", sum(len(q["steps"]) for q in recs))
    run.sample(lines[0][1])
    return ["distinct ids; values finite"]
