"""C14: the Python module gives the library's results, with safe lifetimes."""
import concurrent.futures as cf, json, os, re, subprocess, sys, sysconfig
from .. import build, gen, tess, tlc
from ..core import HARNESS, REPO, ToolError
from ..tess import Case
from . import c09

KEYS = ["k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute",
        "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"]
DEFAULTS = ["64", "0", "1", "8196", "0", "0", "16", "32", "32", "1"]
EMPTY = dict(a=1, key=1, okay=True, tok="", o=1, v=1, row=0, set=1, dev="cpu", ent=0)


def module(run):
    """the module, built with the device stand-in; None where it does not build"""
    flags = ["-shared", "-fPIC", "-fvisibility=hidden", "-O1", "-I/usr/include/pybind11/..",
             "-I" + sysconfig.get_path("include")] + build.STUB
    d = os.path.join(run.dir, "py")
    os.makedirs(d)
    out = os.path.join(d, "pyvotess" + sysconfig.get_config_var("EXT_SUFFIX"))
    ok, log = build.gxx(os.path.join(REPO, "src/pybind11/pyvotess.cpp"), out, flags)
    if not ok:
        raise ToolError("pyvotess does not build:\n" + log[-2000:])
    run.log("built pyvotess")
    return d


class World:
    """builds one history and the table of library calls it needs"""
    def __init__(self, r, hid, sets):
        self.r, self.id, self.sets = r, hid, sets
        self.par = [list(DEFAULTS), list(DEFAULTS)]
        self.ops, self.ev, self.lib = [], [], []

    def do(self, op, **ev):
        self.ops.append(op)
        self.ev.append(dict(EMPTY, op=op["op"], **ev))

    def set(self, a, x, val, okay=True, tok=None):
        name = KEYS[x] if x < 10 else c09.misspelt(self.r)
        self.do(dict(op="set", a=a, name=name, value=val), a=a, key=x + 1, okay=okay, tok=tok or "")
        if x < 10 and okay:
            self.par[a - 1][x] = tok

    def get(self, a, x):
        r = self.r
        name = KEYS[x] if x < 10 else c09.misspelt(r)
        how = "int"
        if x < 10:
            how = r.choice(["int", "float", "str"] + (["bool"] if self.par[a - 1][x] in "01" else []))
            if "." in self.par[a - 1][x]:
                how = "float"
            elif abs(int(self.par[a - 1][x])) >= 2**31 - 1 and how == "int":
                how = "float"
        self.do(dict(op="get", a=a, name=name, how=how), a=a, key=x + 1)

    def small(self, a):
        """assign something the computation accepts"""
        r = self.r
        x = r.randrange(10)
        v = {0: [1, 3, 6, 12, 40], 1: [0, 1, 2, 3], 2: [1, 2, 4, 7], 3: [1, 2, 5, 100, 0],
             4: [0, 1], 5: [0, 1], 6: [1, 2, 4, 9], 7: [8, 16, 48, 64], 8: [10, 24, 64, 96],
             9: [0, 1]}[x]
        v = r.choice(v)
        form = r.choice("iiif" + ("bb" if v in (0, 1) else "") + "s")
        self.set(a, x, ["s", str(v)] if form == "s" else [form, v], True, str(v))

    def make(self, o, a):
        r = self.r
        s = r.randrange(len(self.sets)) + 1
        dev = r.choice(["cpu", "cpu", "gpu"])
        self.do(dict(op="make", o=o, a=a, set=s, dev=dev, form=r.randrange(6)),
                o=o, a=a, set=s, dev=dev)
        e = (s, dev, tuple(self.par[a - 1]))
        if e not in self.lib:
            self.lib.append(e)

    def build(self, o, rows=None):
        """a result made in Python from a list and offsets"""
        r = self.r
        rows = rows if rows is not None else [[r.randrange(-3, 3000) for _ in range(r.choice([0, 0, 1, 3, 8]))]
                for _ in range(r.choice([0, 1, 2, 5]))]
        offs = [0]
        for q in rows:
            offs.append(offs[-1] + len(q))
        flat = [x for q in rows for x in q]
        self.lib.append(rows)
        self.do(dict(op="build", o=o, how=r.randrange(2), list=flat,
                     offs=[] if not rows and r.random() < 0.5 else offs), o=o, ent=len(self.lib))
        return len(rows)

    def text(self, o):
        self.do(dict(op="text", o=o, how=self.r.randrange(2)), o=o)

    def fails(self, o, a):
        """a call that raises, and a good parameter again"""
        r = self.r
        x = r.choice([0, 6, 7, 8])
        old = self.par[a - 1][x]
        self.set(a, x, ["s", r.choice(["abc", "?", "x1"])], True, "abc")
        self.do(dict(op="make", o=3, a=a, set=1, dev="cpu", form=0), o=o, a=a)
        self.ev[-1]["op"] = "badmake"
        self.set(a, x, ["i", int(old)], True, old)

    def view(self, v, o, row):
        self.do(dict(op="view", v=v, o=o, row=row), v=v, o=o, row=row)

    def check_args(self):
        self.do(dict(op="args"))


def histories(run, hists):
    r, out = run.rng, []

    def sets(few=False):
        out = []
        for _ in range(2):
            n = r.choice([2, 4, 7, 12] if few else [1, 2, 5, 12, 30])
            t = r.randrange(3)
            if t == 0:         # on a lattice
                out.append([[x / 64 for x in p] for p in gen.points(r, n, 64)])
            elif t == 1:       # any, or all so close that every bit counts
                out.append([[float(x) for x in p] for p in gen.doubles(r, n)])
            else:
                c = [0.1 + 0.8 * r.random() for _ in range(3)]
                out.append([[x + 3e-6 * (r.random() - 0.5) for x in c] for _ in range(n)])
        return out
    # lifetimes: the model's histories
    for s in hists if run.thorough else r.sample(hists, 500):
        w = World(r, "l%d" % len(out), sets(True))
        size = {}
        seen = set()
        for _ in range(r.randrange(4)):
            w.small(r.choice([1, 2]))
        for n, x, y in re.findall(r'<<"(\w+)", (\d+), (\d+)>>', s):
            x, y = int(x), int(y)
            if n == "make":
                w.make(x, r.choice([1, 2]))
                size[x] = len(w.sets[w.ev[-1]["set"] - 1])
                if r.random() < 0.1:
                    w.fails(x, r.choice([1, 2]))
                if r.random() < 0.2:
                    size[x] = w.build(x)
                if r.random() < 0.2:
                    w.text(x)
            elif n == "view" and not size[y]:
                w.view(3, y, r.randrange(3))
            elif n == "view":
                w.view(x, y, r.randrange(size[y]))
                seen.add(x)
                if r.random() < 0.2:
                    w.view(3, y, size[y] + r.randrange(3))      # past the end
            elif n == "drop":
                w.do(dict(op="drop", o=x), o=x)
            elif n == "forget" and x not in seen:
                pass
            elif n == "read" and x not in seen:
                pass
            elif n == "forget":
                w.do(dict(op="forget", v=x), v=x)
                seen.discard(x)
            elif n == "read":
                w.do(dict(op="read", v=x, how=r.randrange(2)), v=x)
        for v in sorted(seen):
            w.do(dict(op="read", v=v, how=1), v=v)
        out.append(w)
    # parameters and results
    for _ in range(run.pick(120, 1000)):
        w = World(r, "p%d" % len(out), sets())
        hands, made = {}, 0
        for _ in range(r.randrange(5, 20)):
            t = r.random()
            a = r.choice([1, 2])
            if t < 0.35:
                w.small(a)
            elif t < 0.5:
                w.get(a, r.choice(list(range(10)) + [10]))
            elif t < 0.56:
                w.set(a, 10, ["i", 5], True)                    # unknown key
            elif t < 0.64:
                w.set(a, r.randrange(10), r.choice([["n", 0], ["l", 0], ["d", 0], ["o", 0],
                                                   ["i", 2**40], ["i", -2**33]]), False)
            elif t < 0.7:
                w.do(dict(op="fresh", a=a), a=a)
                w.par[a - 1] = list(DEFAULTS)
            elif t < 0.78:
                q, x = r.choice([1, 2]), r.randrange(10)
                w.do(dict(op="href", v=q, a=a, name=KEYS[x]), v=q, a=a, key=x + 1)
                hands[q] = 1
            elif t < 0.86 and hands:
                q = r.choice(sorted(hands))
                w.do(dict(op="hread", v=q, how="str"), v=q)
            else:
                w.make(r.choice([1, 2, 3]), a)
                made = 1
            w.check_args()
        out.append(w)
    # more points
    for n in [300, 800] if not run.thorough else [300, 500, 1000, 2000, 5000]:
        w = World(r, "m%d" % len(out), [[[float(x) for x in p] for p in gen.doubles(r, n)]
                                       for _ in range(2)])
        for _ in range(3):
            w.set(1, 0, ["i", 12], True, "12")
            w.small(1)
            w.make(1, 1)
            w.view(1, 1, r.randrange(n))
            w.view(2, 1, n - 1)
            w.text(1)
            w.do(dict(op="drop", o=1), o=1)
            w.do(dict(op="read", v=1, how=1), v=1)
            w.do(dict(op="read", v=2, how=0), v=2)
        out.append(w)
    # more rows, and longer ones, than 15 or 16 bits count
    for rows in ([[j] if j % 3 else [] for j in range(33000)], [[1], list(range(66000)), [2]],
                 [[]] * 66000 + [[5, 6]])[:run.pick(2, 3)]:
        w = World(r, "n%d" % len(out), [[]])
        w.build(1, rows)
        w.view(1, 1, len(rows) - 1)
        w.view(2, 1, 1)
        w.view(3, 1, len(rows))
        w.do(dict(op="drop", o=1), o=1)
        w.do(dict(op="read", v=1, how=0), v=1)
        w.do(dict(op="read", v=2, how=0), v=2)
        out.append(w)
    # values that are only stored
    for _ in range(run.pick(20, 200)):
        w = World(r, "v%d" % len(out), [[]])
        for _ in range(12):
            x, a = r.randrange(10), r.choice([1, 2])
            t = r.randrange(4)
            if t == 0:
                n = r.choice([0, 1, -1, 2**31 - 1, -2**31, r.randrange(10**9)])
                w.set(a, x, ["i", n], True, str(n))
            elif t == 1:
                f = r.choice([0.1, 2.5, 16777217.0, 1e15, 1 / 3, 123456789.0, r.random()])
                w.set(a, x, ["f", f], True, str(int(f)) if f == int(f) else repr(f))
            elif t == 2:
                b = r.randrange(2)
                w.set(a, x, ["b", b], True, str(b))
            w.get(a, x)
        out.append(w)
    return out


def check(run):
    r = run.rng
    out = tlc.model(run, "MCPyLife", "MCPyLife.cfg")
    if run.thorough:
        tlc.model(run, "MCPyLife", "MCPyLife_more.cfg")
    hists = sorted({s for s in tlc.prints(out) if s.startswith("HIST |")})
    run.add("histories_of_the_model", len(hists))
    (exe, _), mod = build.parallel([
        lambda: tess.get_driver(run), lambda: module(run)])
    ws = histories(run, hists)
    # what the library returns for the calls the histories make
    cases, where = [], {}
    for w in ws:
        for j, e in enumerate(w.lib):
            if isinstance(e, list):
                continue
            s, dev, par = e
            c = Case("%s-%d" % (w.id, j), [[repr(x) for x in p] for p in w.sets[s - 1]], fmt="D",
                     tf="float", dev=int(dev == "gpu"), gpu=1,
                     **{k: int(v) for k, v in zip(KEYS, par)})
            cases.append(c)
            where[c.id] = (w, j)
    obs = tess.record(run, exe, [cases[i:i + 20] for i in range(0, len(cases), 20)])
    ok = {i for i, o in obs.items() if o["end"] == "return"}
    # the module
    parts = [ws[i::7] for i in range(7)]
    pythons = [sys.executable]
    q = "import sys, numpy; print(sys.version_info[:2])"
    for p in ("python3-vt", "/opt/veriftools/pyvenv/bin/python3"):
        try:                 # an interpreter of the same version that has numpy, if there is one
            t = subprocess.run([p, "-c", q], capture_output=True, text=True, timeout=60)
        except OSError:
            continue
        if t.returncode == 0 and t.stdout.strip() == str(sys.version_info[:2]):
            pythons.append(p)
            break
    run.log("interpreters: " + ", ".join(pythons))

    def play(j):
        f = os.path.join(run.dir, "py-in%d" % j)
        g = os.path.join(run.dir, "py-out%d" % j)
        with open(f, "w") as h:
            for w in parts[j]:
                h.write(json.dumps(dict(id=w.id, ops=w.ops, sets=w.sets)) + "\n")
        p = subprocess.run([pythons[j % len(pythons)], os.path.join(HARNESS, "py_worker.py"), mod, f, g],
                           env=dict(os.environ, MALLOC_PERTURB_="165", PYTHONMALLOC="malloc",
                                    OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"),
                           capture_output=True, text=True, timeout=800)
        res = [json.loads(x) for x in open(g)] if os.path.exists(g) else []
        if p.returncode != 0 or not res or res[-1] != {}:
            raise ToolError("python worker: " + (p.stdout + p.stderr)[-2000:])
        return {o["id"]: o for o in res[:-1]}
    res = {}
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        for d in ex.map(play, range(7)):
            res.update(d)
    recs = []
    for w in ws:
        o = res[w.id]
        lib = []
        for j, e in enumerate(w.lib):
            if isinstance(e, list):
                lib.append(dict(set=0, dev="none", par=[], rows=e))
                continue
            s, dev, par = e
            q = "%s-%d" % (w.id, j)
            if q not in ok:
                lib = None
                break
            lib.append(dict(set=s, dev=dev, par=list(par), rows=obs[q]["rows"]))
        if lib is None:
            run.add("histories_left_out")
            continue
        if o["end"] != "ok":
            ev = [dict(w.ev[0], end=o["end"], exc="", got="", rows=[], vals=[], past="", all=[])]
        else:
            ev = [dict(e, **q) for e, q in zip(w.ev, o["ev"])]
        recs.append(dict(id=w.id, lib=lib, ev=ev))
    rej, _ = tlc.validate(run, "PyTrace", recs)
    if any(s.endswith("TABLE") for s in rej):
        raise ToolError("call not in the table of library calls")
    run.add("operations", sum(len(q["ev"]) for q in recs))
    run.add("library_calls_compared", len(cases))
    run.sample([o["op"] for o in ws[0].ops])
    return ["CPython %s with pybind11 from the system; freed memory is overwritten by malloc"
            % sys.version.split()[0]]
