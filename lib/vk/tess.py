"""Tessellation calls through drv_tess: cases, recording, conversion."""
import functools, itertools, json, os, re, subprocess, tempfile
from . import build, tlc
from .core import ToolError

REPORT = {"sr": r"sradius\s*:\s*(-?\d+)", "p": r"p overflow\s*:\s*(-?\d+)",
          "t": r"t overflow\s*:\s*(-?\d+)"}


class Case:
    def __init__(self, id, pts, S=64, ti="int", tf="double", dev=0, gpu=0, order=0, sched=0,
                 rec=0, fmt="L", timeout=20, place=None, tally=False, **args):
        self.id, self.pts, self.S, self.ti, self.tf = id, pts, S, ti, tf
        self.dev, self.gpu, self.order, self.sched, self.rec = dev, gpu, order, sched, rec
        self.fmt, self.timeout, self.args = fmt, timeout, args
        self.tally = tally      # the report against the states of the cells (large calls)
        # (offsets, unit): the lattice put somewhere in the cube, in exact doubles;
        # or a dictionary: where each point of the lattice is put
        self.place = place
        if place:
            self.fmt = "D"

    def text(self):
        L = ["TESS %s %s %s %d %d %d %d %d %s %d %d %d" % (
            self.id, self.ti, self.tf, self.dev, self.gpu, self.order, self.sched, self.rec,
            self.fmt, self.S, len(self.pts), len(self.args))]
        for k, v in self.args.items():
            t = "b" if isinstance(v, bool) else "i" if isinstance(v, int) else \
                "d" if isinstance(v, float) else "s"
            L.append("A %s %s %s" % (k, t, int(v) if t == "b" else v))
        if isinstance(self.place, dict):
            L.append("P " + " ".join(repr(x) for p in self.pts for x in self.place[p]))
        elif self.place:
            off, u = self.place
            L.append("P " + " ".join(repr(o + x * u) for p in self.pts for o, x in zip(off, p)))
        elif self.fmt == "L":
            L.append("P " + " ".join("%d %d %d" % p for p in self.pts))
        else:
            L.append("P " + " ".join(" ".join(x if isinstance(x, str) else repr(x) for x in p)
                                     for p in self.pts))
        return "\n".join(L) + "\n"

    def describe(self):
        return dict(id=self.id, n=len(self.pts), S=self.S, ti=self.ti, tf=self.tf,
                    dev=self.dev, gpu=self.gpu, args=self.args)

    # parameters in force
    def par(self, k):
        return int(self.args.get(k, dict(
            k=64, cpu_nthreads=0, gpu_ndsize=1, chunksize=8196, use_chunking=0,
            use_recompute=0, knn_grid_resolution=16, cc_p_maxsize=32, cc_t_maxsize=32,
            dev_suppress_stdout=1)[k]))


def drive(run, exe, text, nproc=7, env=None, limit=900):
    """text: list of sessions (strings).  Returns the JSON records."""
    parts = [[] for _ in range(max(1, min(nproc, len(text))))]
    for i, t in enumerate(text):
        parts[i % len(parts)].append(t)
    out = []
    procs = []
    e = dict(os.environ, TMPDIR=run.dir)
    e.update(env or {})
    for i, p in enumerate(parts):
        fd, f = tempfile.mkstemp(".txt", "in-", run.dir)
        with os.fdopen(fd, "w") as h:
            h.write("".join(p))
        procs.append((f, subprocess.Popen([exe, f], stdout=subprocess.PIPE,
                                          stderr=subprocess.DEVNULL, env=e)))
    def collect(fp):
        f, p = fp
        try:
            o, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("driver did not finish")
        if os.path.exists(f):
            os.unlink(f)
        res = []
        for line in o.decode(errors="replace").splitlines():
            try:
                res.append(json.loads(line))
            except ValueError:
                raise ToolError("driver wrote: " + line[:300])
        if not res or res[-1] != {"id": "", "end": "all"}:
            raise ToolError("driver ended early: " + exe)
        return res[:-1]
    for r in build.parallel([lambda q=q: collect(q) for q in procs]):
        out += r
    return out


def session(cases, timeout=None):
    return "SESSION %g\n" % (timeout or max(c.timeout for c in cases)) + \
        "".join(c.text() for c in cases)


def record(run, exe, sessions, env=None, nproc=7):
    """sessions: list of lists of cases.  Returns {id: observation}.  A hang is
    believed only when it is repeated with three times the deadline."""
    obs = {}
    for o in drive(run, exe, [session(s) for s in sessions], env=env, nproc=nproc):
        obs[o["id"]] = o
    late = [s for s in sessions if any(obs.get(c.id, {}).get("end") == "hang" for c in s)]
    if late:
        run.log("%d session(s) over their deadline: again with more time" % len(late))
        for s in late:
            for c in s:
                obs.pop(c.id, None)
        late = late[:4]
        for o in drive(run, exe, [session(s, 3 * max(c.timeout for c in s)) for s in late],
                       nproc=4, env=env):
            obs[o["id"]] = o
    run.add("calls_recorded", sum(len(s) for s in sessions))
    return obs


def report(o):
    """the three counts of the status report, or [] if it is not there"""
    r = []
    for k in ("sr", "p", "t"):
        m = re.findall(REPORT[k], o["out"])
        if not m:
            return []
        r.append(int(m[-1]))
    return r


def whole_report(o):
    """all the numbers of the status report, by name"""
    at = o["out"].rfind("sradius")
    return sorted([k.strip(), int(v)] for k, v in
                  re.findall(r"([A-Za-z][A-Za-z ]*?)\s*:\s*(-?\d+)", o["out"][at:])) if at >= 0 else []


FSCALE = ((200, 64), (256, 32), (1024, 8))


def flags(case, o):
    """per point (certified, plane overflow, vertex overflow), from the events;
    [] if some cell has none"""
    if not o.get("ev"):
        return []
    st = {}
    for e in o["ev"]:
        if e[0] == "S":
            st[e[2]] = e[3]
    n = len(case.pts)
    if len(st) != n or o.get("dev", {}).get("kernels"):
        return []
    return [[1 if st[i] & b else 0 for b in o["bits"]] for i in range(n)]


def cell_record(case, o, judge=None, rep=None, recompute=None):
    """record for CellTrace.tla"""
    n = len(case.pts)
    rc = case.par("use_recompute") if recompute is None else recompute
    judge = list(range(1, n + 1)) if judge is None else judge
    if rep is None:
        rep = report(o) if len(judge) == n else []
    return dict(id=case.id, S=case.S, F=next(f for s, f in FSCALE if case.S <= s),
                fp=case.tf == "float",
                k=n if rc else case.par("k"),
                pm=255 if rc else min(255, case.par("cc_p_maxsize")),
                tm=512 if rc else case.par("cc_t_maxsize"),
                judge=judge, pts=[list(case.pts[i]) for i in o["perm"]],
                rows=[[x + 1 for x in row] for row in o["rows"]], rep=rep,
                fl=flags(case, o) if rep else [], inner=case.place is not None)


def limit_of(c):
    """most neighbours a row can have"""
    n = len(c.pts)
    try:
        k = c.par("k")
    except ValueError:
        return n
    return n if c.par("use_recompute") else min(n, max(0, k))


def envelope(run, cases, obs, mayraise=(), want=False):
    """Every call judged by CallTrace.tla.  Returns the ids of the calls that
    returned as they should."""
    recs = []
    for c in cases:
        o = obs.get(c.id)
        if o is None:
            continue       # an earlier call of the session died; that one is judged
        recs.append(dict(id=c.id, n=len(c.pts), end=o["end"], exc=o.get("exc", ""),
                         via=o.get("via", "ok"), perm=o.get("perm", []), rows=o.get("rows", []),
                         kept=bool(o.get("args_kept", 1)), mayraise=c.id in mayraise,
                         k=limit_of(c), rep=report(o) if "out" in o else [],
                         fl=[x[0] + 2 * x[1] + 4 * x[2] for x in flags(c, o)] if c.tally else [],
                         want=want and not c.par("dev_suppress_stdout"),
                         fault=o.get("dev", {}).get("first", "")))
    rej, done = tlc.validate(run, "CallTrace", recs)
    return {i for i, v in done.items() if v[0] == "returned"}


def get_driver(run, **kw):
    exe, label = build.driver(run, "drv_tess", build.tess_variants(**kw))
    if exe is None:
        raise ToolError("drv_tess does not build:\n" + label[-2000:])
    run.cov["driver"] = label
    return exe, label


def orch_record(c, o):
    """record for TessTrace.tla; None if the driver has no events"""
    if not o.get("ev") or len(o["ev"]) > 20000:
        return None
    kinds = {e[0] for e in o["ev"]}
    if ("T" in kinds) != ("S" in kinds) or not {"R", "M"} <= kinds:
        return None        # hooks are gone from this tree
    return dict(id=c.id, n=len(c.pts), ev=o["ev"],
                rep=report(o) if not (c.dev and c.gpu) else [],
                srbit=o["bits"][0], pbit=o["bits"][1], tbit=o["bits"][2])


def mode(r, n, chunk=0.3, gpu=0.2, rc=0.0):
    """the way a call is carried out, which is not to change what it gives"""
    g = r.random() < gpu
    a = dict(cpu_nthreads=r.choice([1, 2, 3, 5, max(1, n), 0]))
    if r.random() < chunk:
        a.update(use_chunking=True, chunksize=r.choice([1, 2, 5, max(1, n // 2), max(1, n - 1), n,
                                                        n + 1, 0]))
    if g:
        a.update(dev=1, gpu=1, order=r.choice([0, 1, 2, 5, 9]), gpu_ndsize=r.choice([1, 2, 3, 8, 16]))
    if r.random() < rc:
        a["use_recompute"] = True
    return a


def crowd(r, n, S=4096):
    """many distinct points"""
    return list(dict.fromkeys(tuple(r.randrange(1, S) for _ in range(3)) for _ in range(n)))


def labels(pts):
    """canonical number of each point: its rank by coordinates"""
    rank = {p: i for i, p in enumerate(sorted(set(pts)))}
    return [rank[p] for p in pts]


def memo_record(hid, calls, order):
    """calls: list of (key, case, observation)"""
    keys = {}
    ev = []
    for key, c, o in calls:
        k = keys.setdefault(key, len(keys) + 1)
        ev.append(dict(id=c.id, key=k, labels=labels(c.pts), perm=o["perm"], rows=o["rows"],
                       rep=whole_report(o)))
    return dict(id=hid, keys=max(1, len(keys)), order=order, calls=ev)


def judge_cells(run, cs, obs, ok, rep=True, sample=None):
    """CellTrace over the recorded calls; counts what was judged."""
    recs = []
    for c in cs:
        if c.id not in ok:
            continue
        n = len(c.pts)
        judge = None
        if sample and n > sample:
            judge = sorted(run.rng.sample(range(1, n + 1), sample))
        recs.append(cell_record(c, obs[c.id], judge, rep=None if rep else []))
    recs.sort(key=lambda r: -len(r["judge"]) * min(r["k"], len(r["pts"])))
    rej, done = tlc.validate(run, "CellTrace", recs, timeout=run.pick(800, 6000))
    run.add("cells_judged", sum(int(v[0]) for v in done.values()))
    run.add("cells_left_open_as_degenerate", sum(int(v[1]) for v in done.values()))
    return rej, done


def judge_orchestration(run, cs, obs, ok, most=400):
    """TessTrace over the calls recorded with events"""
    recs = [r for r in (orch_record(c, obs[c.id]) for c in cs if c.id in ok and c.rec) if r]
    if len(recs) > most:
        recs = run.rng.sample(recs, most)
    run.add("event_traces", len(recs))
    run.add("events", sum(len(r["ev"]) for r in recs))
    return tlc.validate(run, "TessTrace", recs, timeout=run.pick(800, 6000))


def judge_memo(run, groups, obs, ok, order):
    """groups: list of (id, [(key, case)]); calls with equal keys must agree"""
    recs = []
    for hid, calls in groups:
        cc = [(k, c, obs[c.id]) for k, c in calls if c.id in ok]
        if len(cc) > 1:
            recs.append(memo_record(hid, cc, order))
    return tlc.validate(run, "MemoTrace", recs, timeout=run.pick(800, 6000))


def judge_final(run, groups, obs, ok):
    """groups: list of (id, [(all, case)]) on one set of points each"""
    recs = []
    for hid, calls in groups:
        ev = []
        for full, c in calls:
            if c.id not in ok:
                continue
            o = obs[c.id]
            fl = flags(c, o)
            rep = report(o)
            if not fl and rep and rep[0] == 0:
                fl = [[1, 0, 0]] * len(c.pts)
            ev.append(dict(id=c.id, labels=labels(c.pts), perm=o["perm"], rows=o["rows"], fl=fl,
                           full=full, over=bool(rep) and rep[1:] != [0, 0]))
        if len(ev) > 1:
            recs.append(dict(id=hid, n=len(calls[0][1].pts), calls=ev))
    rej, done = tlc.validate(run, "FinalTrace", recs, timeout=run.pick(800, 6000))
    run.add("complete_rows_compared", sum(int(v[0]) for v in done.values()))
    return rej, done


def windows(run, c, o, cells, k=None):
    """CellTrace records for a few cells of a large call, each with the points
    around it only: all those not farther away than the k-th nearest (and
    those its row names).  Another k than the call's is for complete cells, where
    the caller knows that no point beyond the k-th matters."""
    pts = [c.pts[i] for i in o["perm"]]
    n = len(pts)
    k = k or (n - 1 if c.par("use_recompute") else min(c.par("k"), n - 1))
    w = max(1, c.S // 24)
    bucket = {}
    for i, p in enumerate(pts):
        bucket.setdefault((p[0] // w, p[1] // w, p[2] // w), []).append(i)
    recs = []
    for me in cells:
        p = pts[me]
        b = [x // w for x in p]
        r = 1
        while True:       # all points within r * w are in the buckets b - r .. b + r
            near = []
            for x in range(b[0] - r, b[0] + r + 1):
                for y in range(b[1] - r, b[1] + r + 1):
                    for z in range(b[2] - r, b[2] + r + 1):
                        near += bucket.get((x, y, z), [])
            d = sorted((sum((a - e) ** 2 for a, e in zip(pts[q], p)), q) for q in near if q != me)
            if len(d) >= k and d[k - 1][0] < (r * w) ** 2 or len(d) == n - 1:
                break
            r += 1
        kth = d[k - 1][0]
        row = [x for x in o["rows"][me] if 0 <= x < n]
        ids = [me] + sorted({q for e, q in d if e <= kth} | set(row) - {me})
        at = {q: j + 1 for j, q in enumerate(ids)}
        recs.append(dict(id="%s-%d" % (c.id, me), S=c.S, F=next(f for s, f in FSCALE if c.S <= s),
                         fp=c.tf == "float", k=k,
                         pm=255 if c.par("use_recompute") else min(255, c.par("cc_p_maxsize")),
                         tm=512 if c.par("use_recompute") else c.par("cc_t_maxsize"),
                         judge=[1], pts=[list(pts[q]) for q in ids],
                         rows=[[at.get(x, 0) for x in o["rows"][me]]], rep=[], fl=[], inner=False))
    return recs


def frame_case(r, id, tf, **kw):
    """A point in the middle of a box of six others, and more points that cut
    off a corner or an edge of the box by a hair's breadth, or miss it by as
    much.  The specification gets the same situation on its lattice, where the
    hair is a sixteenth: whether a face is there depends on which side the point
    is on only, as long as the breadth is the same everywhere and small.  The
    real points are turned and put anywhere."""
    v = {}
    eps = r.choice(dict(double=[1e-6, 1e-7, 1e-8, 1e-9], ldouble=[1e-9, 1e-11, 1e-12],
                        float=[0.003, 0.006, 0.012])[tf])

    def add(d, s):
        """s: before (-1), at (0) or behind (1) its place, 16 units along d"""
        v[tuple((16 + s) * x for x in d)] = tuple(16 * (1 + s * eps) * x for x in d)
    axes = [tuple(s * (a == b) for b in range(3)) for a in range(3) for s in (1, -1)]
    for d in axes:
        add(d, 0)
    kind = r.randrange(3)
    if kind == 0 or r.random() < 0.3:      # one face behind another
        add(r.choice(axes), r.choice([-1, 1]))
    if kind < 2:
        for d in itertools.product((1, -1), repeat=3):
            if r.random() < 0.7:
                add(d, r.choice([-1, 1]))
    else:
        a = r.randrange(3)
        for s, w in itertools.product((1, -1), repeat=2):
            d = [s, w]
            d.insert(a, 0)
            add(d, r.choice([-1, 1]))
    for _ in range(r.choice([0, 3, 10])):      # too far away to matter
        d = tuple(r.randrange(-31, 32) for _ in range(3))
        if sum(x * x for x in d) > 32 ** 2:
            v[d] = d
    v[0, 0, 0] = (0, 0, 0)
    return in_frame(r, id, tf, v, **kw)


def in_frame(r, id, tf, v, **kw):
    """v: vectors on the lattice -> vectors meant.  These are turned and put
    somewhere; the point in the middle is the one to be judged."""
    # a frame of three orthogonal unit vectors, and a unit of length
    while True:
        m = [[r.gauss(0, 1) for _ in range(3)] for _ in range(3)]
        for i in range(3):
            for j in range(i):
                s = sum(a * b for a, b in zip(m[i], m[j]))
                m[i] = [a - s * b for a, b in zip(m[i], m[j])]
            s = sum(a * a for a in m[i]) ** 0.5
            m[i] = [a / s for a in m[i]]
        if max(abs(sum(a * b for a, b in zip(m[i], m[j]))) for i in range(3) for j in range(i)) < 1e-14:
            break
    u = r.uniform(0.004, 0.006) if tf == "float" else r.uniform(0.001, 0.006)
    o = [r.uniform(0.38, 0.62) for _ in range(3)]
    place = {tuple(32 + x for x in k): tuple(o[i] + u * sum(m[j][i] * w[j] for j in range(3)) for i in range(3))
             for k, w in v.items()}
    pts = list(place)
    r.shuffle(pts)
    c = Case(id, pts, 64, tf=tf, place=place, k=len(pts), cc_p_maxsize=64, cc_t_maxsize=128, **kw)
    c.middle = pts.index((32, 32, 32))
    return c


@functools.lru_cache(None)
def on_sphere(D):
    return [w for w in itertools.product(range(-28, 29), repeat=3) if w[0] ** 2 + w[1] ** 2 + w[2] ** 2 == D]


def limit_case(r, id, tf, **kw):
    """A point in the middle of a box of six others, and more points twice as
    far away as the corners of the box, but for a hair: they do not change the
    cell, but tell whether it is complete."""
    eps = r.choice(dict(double=[1e-6, 1e-7, 1e-8, 1e-9, 1e-10], ldouble=[1e-9, 1e-11, 1e-12],
                        float=[0.003, 0.006, 0.012])[tf])
    while True:
        a = [r.choice([10, 12, 14, 16]) for _ in range(3)]
        D = sum(x * x for x in a)
        # not in the direction of a corner
        ws = [w for w in on_sphere(D) if sum(abs(x) * y for x, y in zip(w, a)) < 0.93 * D]
        if ws:
            break
    v = {(0, 0, 0): (0, 0, 0)}
    for i in range(3):
        for s in (1, -1):
            w = tuple(s * a[i] * (i == j) for j in range(3))
            v[w] = w
    out = r.random() < 0.5          # is there one that is far enough?
    for j, w in enumerate(r.sample(ws, min(len(ws), r.choice([1, 1, 2, 5])))):
        s = (1 if j == 0 else r.choice([-1, 1])) if out else -1
        near = [q for q in itertools.product(*[(x - 1, x, x + 1) for x in w])
                if 0.02 < s * (sum(x * x for x in q) / D - 1) < 0.12 and q not in v
                and sum(abs(x) * y for x, y in zip(q, a)) < 0.96 * sum(x * x for x in q)]
        if near:
            v[r.choice(near)] = tuple((1 + s * eps) * x for x in w)
    if len(v) < 8:
        return limit_case(r, id, tf, **kw)
    return in_frame(r, id, tf, v, rec=1, **kw)


def judge_frames(run, cs, obs, ok):
    recs = [cell_record(c, obs[c.id], [obs[c.id]["perm"].index(c.middle) + 1], rep=[]) for c in cs if c.id in ok]
    for q, c in zip(recs, [c for c in cs if c.id in ok]):
        if c.rec:
            q["fl"] = flags(c, obs[c.id])
    rej, done = tlc.validate(run, "CellTrace", recs)
    run.add("cells_near_a_tie_judged", sum(int(v[0]) for v in done.values()))
    return rej, done


def judge_windows(run, cs, obs, ok, count, k=None, margin=0):
    recs = []
    for c in cs:
        if c.id in ok:
            n = len(c.pts)
            # the ends of the index range, and others
            cells = {0, n - 1} | {min(n - 1, x + d) for x in (255, 32767, 65535) for d in (0, 1, 2)}
            cells |= set(run.rng.sample(range(n), min(n, count)))
            at = obs[c.id]["perm"]
            cells = {i for i in cells if all(margin <= x / c.S <= 1 - margin for x in c.pts[at[i]])}
            recs += windows(run, c, obs[c.id], sorted(cells), k)
    rej, done = tlc.validate(run, "CellTrace", recs, timeout=run.pick(800, 6000))
    run.add("cells_judged", sum(int(v[0]) for v in done.values()))
    run.add("cells_left_open_as_degenerate", sum(int(v[1]) for v in done.values()))
    return rej, done
