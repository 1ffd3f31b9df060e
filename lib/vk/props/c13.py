"""C13: the command line maps options and files to the library faithfully."""
import concurrent.futures as cf, json, os, re, struct, subprocess
from .. import build, gen, tlc
from ..core import REPO, ToolError
from .c08 import printed

# key number, short, long
NUM = {"k": (1, "k", ["k-init"]), "t": (2, "t", ["cpu-nthreads"]), "d": (3, "d", ["gpu-ndsize"]),
       "c": (4, "c", ["chunksize"]), "g": (7, "g", ["gridres", "grid-resolution"]), "p": (8, "p", ["p-maxsize"]),
       "m": (9, "m", ["t-maxsize"])}
FLAG = {"u": (5, "u", "use-chunking"), "r": (6, "r", "use-recompute")}


def values(r, o):
    return r.choice(dict(k=[1, 2, 3, 5, 9, 20, 64, 100, 0], t=[0, 1, 2, 3, 7], d=[1, 2, 4, 16, 33],
                         c=[1, 2, 3, 7, 50, 100000, 0], g=[1, 2, 3, 8, 24, 40],
                         p=[6, 8, 12, 16, 40, 64, 200], m=[8, 12, 20, 40, 64, 300])[o])


def number(r, x):
    t = r.randrange(6)
    return ("%.6f" % x if t < 3 else "%.5e" % x if t == 3 else repr(round(x, 7)) if t == 4
            else ("%.6f" % x).lstrip("0"))


def f32hex(t):
    return struct.unpack("f", struct.pack("f", float(t)))[0].hex()


def chex(t):
    """as C's %a writes it"""
    x = float.fromhex(f32hex(t))
    m = re.fullmatch(r"(-?)0x1\.([0-9a-f]*)p([+-]\d+)", x.hex())
    frac = m.group(2).rstrip("0")
    return "%s0x1%sp%s" % (m.group(1), "." + frac if frac else "", m.group(3))


def goodfile(r, path, n, style=""):
    seps = [" ", "  ", "\t", " \t "]
    L, pts = [], []
    for j in range(n):
        p = [number(r, r.uniform(0.001, 0.999)) for _ in range(3)]
        sep = r.choice(seps)
        if style == "long" and r.random() < 0.3:      # many digits, or wide columns
            w = r.choice([20, 60, 130, 300, 1100, 4200, 9000])
            if r.random() < 0.5:
                p = ["0." + p[0].split(".")[1].split("e")[0] + "0" * w if "e" not in p[0] else p[0]] + p[1:]
                p = p[:2] + ["0.%d" % r.randrange(1, 9) + "".join(r.choice("0123456789") for _ in range(w))]
            else:
                sep = " " * w
        if style == "forms":
            p = [r.choice(["+%s", "00%s", "%s"]) % "%.6f" % float(x) if r.random() < 0.5 else
                 r.choice(["%.4E", "%.8e", "%.9f", "%.2f"]) % max(float(x), 0.01) for x in p]
        L.append(r.choice(["", "", " "]) + sep.join(p) + r.choice(["", "", " ", "\r"]))
        pts += [chex(x) for x in p]
    t = "\n".join(L)
    if n and r.random() < 0.8:
        t += "\n"
    with open(path, "w", newline="") as f:
        f.write(t)
    return pts


def badfile(r, path):
    L = ["0.1 0.2 0.3", "0.5 0.25 0.75", "0.9 0.8 0.7", "0.3 0.35 0.2"]
    L.insert(r.randrange(5), r.choice(["0.1 0.2", "a b c", "0.1,0.2,0.3", "", "   ", "0.4 x 0.5",
                                       "# comment", "0.5", "0.1 0.2 z", "x 0.2 0.3"]))
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")


def spell(r, opts):
    """argument vector for a list of options"""
    out = []
    for o in opts:
        if o[0] in NUM:
            _, s, ls = NUM[o[0]]
            v = str(o[1])
            if o[1] > 0 and r.random() < 0.15:
                v = r.choice(["0", "00"]) + v
            out += r.choice([["-" + s, v], ["-" + s + v], ["--" + r.choice(ls), v],
                             ["--%s=%s" % (r.choice(ls), v)]])
        elif o[0] in FLAG:
            _, s, l = FLAG[o[0]]
            if r.random() < 0.3 and out and out[-1] in ("-u", "-r"):
                out[-1] += s
            else:
                out.append(r.choice(["-" + s, "--" + l]))
        elif o[0] == "x":
            out += r.choice([["-x", o[1]], ["-x" + o[1]], ["--use-device", o[1]],
                             ["--use-device=" + o[1]]])
        else:
            out += r.choice([["-i", o[1]], ["-i" + o[1]], ["--infile", o[1]], ["--infile=" + o[1]]])
    return out


def check(run):
    r = run.rng
    out = tlc.model(run, "MCCli", "MCCli.cfg")
    seqs = sorted({s for s in tlc.prints(out) if s.startswith("ARGV |")})
    run.add("argument_vectors_of_the_model", len(seqs))
    main = os.path.join(REPO, "src/main.cpp")
    probe = ["-include", os.path.join(build.HARNESS, "cli_probe.hpp")]
    exe, label = build.driver(run, main, [
        ("probe", ["-O1"] + build.STUB + probe), ("plain", ["-O1"] + build.STUB),
        ("sycl", ["-O1"] + build.SYCL + ["-L/opt/sycl/lib", "-Wl,-rpath,/opt/sycl/lib", "-lsycl"])])
    if exe is None:
        raise ToolError("main.cpp does not build:\n" + label[-2000:])
    d = os.path.join(run.dir, "files")
    os.makedirs(os.path.join(d, "dir"))
    files = {}            # name -> (kind, pts)
    for j in range(run.pick(14, 60)):
        n = r.choice([0, 1, 2, 3, 6, 12, 25, 40])
        f = os.path.join(d, "g%d.txt" % j)
        files[f] = ("good", goodfile(r, f, n, r.choice(["", "long", "forms"])))
    big = []
    for j, n in enumerate([300, 1500] + ([9000, 20000, 70000] if run.thorough else [r.choice([5000, 9000])])):
        f = os.path.join(d, "h%d.txt" % j)
        files[f] = ("big", goodfile(r, f, n, "long" if j == 0 else ""))
        big.append(f)
    for j in range(run.pick(10, 40)):
        f = os.path.join(d, "b%d.txt" % j)
        badfile(r, f)
        files[f] = ("bad", [])
    files[os.path.join(d, "nothing.txt")] = ("none", [])
    files[os.path.join(d, "dir")] = ("none", [])
    by = {k: [f for f in sorted(files) if files[f][0] == k] for k in ("good", "bad", "none")}
    cases = []

    def option(o, v=None):
        if o in NUM:
            return (o, v if v is not None else values(r, o))
        return (o,)
    for s in seqs if run.thorough else r.sample(seqs, 300):
        nk = r.sample(sorted(NUM), 2)
        fk = r.choice(sorted(FLAG))
        vv = {}
        opts = []
        for a, b in re.findall(r'<<"(\w+)", "?(\w+)"?>>', s):
            if a in ("k", "n2"):
                o = nk[a == "n2"]
                opts.append((o, vv.setdefault((o, b), values(r, o))))
            elif a == "f":
                opts.append((fk,))
            elif a == "device":
                opts.append(("x", b))
            else:
                opts.append(("i", r.choice(by[b])))
        if r.random() < 0.6:
            opts.insert(r.randrange(len(opts) + 1), ("i", r.choice(by["good"])))
        cases.append(opts)
    for _ in range(run.pick(150, 1500)):
        opts = [option(r.choice(sorted(NUM) + sorted(FLAG))) for _ in range(r.randrange(0, 9))]
        if r.random() < 0.5:
            opts.insert(r.randrange(len(opts) + 1), ("x", r.choice(["cpu", "gpu"])))
        kind = r.choice(["good"] * 8 + ["bad", "none"])
        opts.insert(r.randrange(len(opts) + 1), ("i", r.choice(by[kind])))
        cases.append(opts)
    # every option on its own, in every spelling
    for o in sorted(NUM) + sorted(FLAG):
        for _ in range(6):
            cases.append([option(o), ("i", r.choice(by["good"]))])

    # larger files: more points than a chunk, than a byte or a short holds
    for f in big:
        cases.append([("i", f)])
        cases.append([("k", 20), ("i", f), ("u",)])
        cases.append([("u",), ("c", 1000), ("i", f), ("k", 16), ("g", 24)])
    # an initial k of 0
    for _ in range(6):
        cases.append([("k", 0), ("i", r.choice(by["good"] + big[:1]))])

    def one(j):
        opts = cases[j]
        log = os.path.join(run.dir, "log%d" % j)
        argv = argvs[j]
        rec = dict(id="c%d" % j, argv=[a.replace(d, "") for a in argv], probed=label == "probe",
                   end="exit", status=0, err=False, braces=False, calls=[], printed=[], opts=[],
                   files=[])
        used = [o[1] for o in opts if o[0] == "i"]
        used = list(dict.fromkeys(used))
        rec["files"] = [dict(kind=files[f][0].replace("big", "good"), pts=files[f][1]) for f in used]
        for o in opts:
            e = dict(what="par", key=1, val=1, dev="")
            if o[0] in NUM:
                e.update(key=NUM[o[0]][0], val=o[1])
            elif o[0] in FLAG:
                e.update(key=FLAG[o[0]][0], val=1)
            elif o[0] == "x":
                e.update(what="device", dev=o[1])
            else:
                e.update(what="file", val=used.index(o[1]) + 1)
            rec["opts"].append(e)
        for limit in (30, 120):
            try:
                p = subprocess.run([exe] + argv, capture_output=True, timeout=limit, cwd=run.dir,
                                   env=dict(os.environ, VERIF_CLI_LOG=log))
            except subprocess.TimeoutExpired:
                rec["end"] = "hang"
                if os.path.exists(log):
                    os.unlink(log)
                continue
            rec["end"] = "exit" if p.returncode >= 0 else "signal %d" % -p.returncode
            break
        if rec["end"] == "exit":
            t = p.stdout.decode(errors="replace")
            rec.update(status=p.returncode, err=bool(p.stderr), braces="{" in t,
                       printed=printed(t) if "{" in t else [[-999999]])
        if os.path.exists(log):
            with open(log) as h:
                rec["calls"] = [json.loads(x) for x in h]
            os.unlink(log)
        return rec
    argvs = [spell(r, o) for o in cases]
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        recs = list(ex.map(one, range(len(cases))))
    rej, done = tlc.validate(run, "CliTrace", recs)
    run.cov["driver"] = label
    run.add("runs_with_rows", sum(v[0] == "rows" for v in done.values()))
    run.add("runs_with_error", sum(v[0] == "error" for v in done.values()))
    run.sample(recs[0]["argv"])
    run.sample(recs[-1]["argv"])
    return ["the program is built with the device stand-in; the call it makes of the library is "
            "recorded by a header included before src/main.cpp"]
