"""Performs histories with the pyvotess module.  argv: module directory,
input (JSON lines: {id, sets, ops}), output.  Each history runs in a child."""
import gc, json, os, resource, signal, sys, time
sys.path.insert(0, sys.argv[1])
import pyvotess as pv
KEYS = ["k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute",
        "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"]
try:
    import numpy
except ImportError:
    numpy = None


def value(x):
    t, v = x
    return dict(i=int, f=float, b=bool)[t](v) if t in "ifb" else v if t == "s" else \
        dict(n=None, l=[1], d={}, o=object())[t]


def points(pts, how):
    if how == 1:
        return tuple(tuple(p) for p in pts)
    if how == 2 and numpy is not None and pts:
        return numpy.array(pts, dtype=numpy.float32)
    if how == 3 and numpy is not None and pts:
        return numpy.array(pts, dtype=numpy.float64)
    if how == 4 and numpy is not None and pts:
        return numpy.asfortranarray(numpy.array(pts, dtype=numpy.float64))
    if how == 5 and numpy is not None and pts:
        a = numpy.full((2 * len(pts), 5), 0.5)
        a[::2, 1:4] = pts
        return a[::2, 1:4]
    return [list(p) for p in pts]


def num(x):
    """as exact text"""
    x = float(x)
    return str(int(x)) if x == int(x) else repr(x)


def read(handle, how):
    if how == "int":
        return str(int(handle))
    if how == "float":
        return num(float(handle))
    if how == "bool":
        return "1" if bool(handle) else "0"
    return str(handle)


def rows(r, how):
    if r.size() > 100000:
        raise RuntimeError("size out of range")
    if how:
        return [[int(x) for x in w] for w in r]
    if any(r[i].size() > 100000 for i in range(r.size())):
        raise RuntimeError("size out of range")
    return [[int(r[i][j]) for j in range(r[i].size())] for i in range(r.size())]


def saved(r, d):
    f = os.path.join(d, "saved")
    r.savetxt(f)
    t = open(f).read()
    os.remove(f)
    if t and not t.endswith("\n"):
        raise RuntimeError("malformed")
    return [[int(x) for x in q.split(" ")[:-1]] for q in t.split("\n")[:-1]]


def printed(r, d):
    f = os.path.join(d, "printed")
    fd, old = os.open(f, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600), os.dup(1)
    os.dup2(fd, 1)
    r.print()
    os.dup2(old, 1)
    os.close(old)
    os.close(fd)
    t = open(f).read()
    os.remove(f)
    if t == "{}\n":
        return []
    q = t.split("\n")
    if q[0] != "{" or q[-2:] != ["}", ""]:
        raise RuntimeError("malformed")
    out = []
    for s in q[1:-2]:
        if not s.startswith("  {") or not s.endswith("}"):
            raise RuntimeError("malformed")
        out.append([int(x) for x in s[3:-1].split(", ")[:-1]])
    return out


def play(h, tmp):
    args = [pv.vtargs(), pv.vtargs()]
    held, view, hand, keep, out = {}, {}, {}, [], []
    for op in h["ops"]:
        e = dict(end="ok", exc="", got="", rows=[], vals=[], past="", all=[])
        n = op["op"]
        try:
            if n == "set":
                args[op["a"] - 1][op["name"]] = value(op["value"])
            elif n == "get":
                e["got"] = read(args[op["a"] - 1][op["name"]], op["how"])
            elif n == "href":
                hand[op["v"]] = args[op["a"] - 1][op["name"]]
            elif n == "hread":
                e["got"] = read(hand[op["v"]], op["how"])
            elif n == "fresh":
                args[op["a"] - 1] = pv.vtargs()
                gc.collect()
            elif n == "args":
                e["all"] = [[str(int(a[k])) for k in KEYS] for a in args]
            elif n == "make":
                x = points(h["sets"][op["set"] - 1], op["form"])
                d = pv.device.gpu if op["dev"] == "gpu" else pv.device.cpu
                a = args[op["a"] - 1]
                if op["form"] in (1, 3):
                    r = pv.tesellate(xyzset=x, args=a, device=d)
                elif op["dev"] == "gpu":
                    r = pv.tesellate(x, a)          # the default device
                else:
                    r = pv.tesellate(x, a, d)
                held[op["o"]] = r
                e["rows"] = rows(r, op["form"] >= 3)
                r = None
            elif n == "build":
                r = pv.dnn(op["list"], op["offs"]) if op["offs"] else pv.dnn()
                held[op["o"]] = r
                e["rows"] = rows(r, op["how"])
                r = None
            elif n == "text":
                e["rows"] = (printed if op["how"] else saved)(held[op["o"]], tmp)
            elif n == "view":
                view[op["v"]] = held[op["o"]][op["row"]]
            elif n == "drop":
                held.pop(op["o"], None)
                gc.collect()
                keep.append([bytearray(64 * q) for q in range(1, 40)])    # reuse freed memory
            elif n == "forget":
                view.pop(op["v"], None)
                gc.collect()
            elif n == "read":
                w = view[op["v"]]
                if not 0 <= w.size() < 100000:
                    raise RuntimeError("size of a row is %d" % w.size())
                e["vals"] = [int(w[j]) for j in range(w.size())] if op["how"] else [int(x) for x in w]
                try:
                    e["past"] = "value %d" % w[w.size()]
                except Exception as ex:
                    e["past"] = type(ex).__name__
        except Exception as ex:
            e["end"] = "raise"
            e["exc"] = type(ex).__name__
        out.append(e)
    return dict(id=h["id"], end="ok", ev=out)


def main():
    res = open(sys.argv[3], "a")
    tmp = sys.argv[3] + ".d"
    os.mkdir(tmp)
    late = 0
    for line in open(sys.argv[2]):
        h = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
            os.dup2(1, 2)
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            data = json.dumps(play(h, tmp)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        buf, t0, hung = b"", time.time(), False
        signal.alarm(0)
        import select
        while True:
            ok, _, _ = select.select([r], [], [], 1)
            if ok:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                buf += b
            elif time.time() - t0 > (20 if late < 3 else 5):
                hung = True
                late += 1
                os.kill(pid, signal.SIGKILL)
                break
        os.close(r)
        _, st = os.waitpid(pid, 0)
        try:
            o = json.loads(buf)
        except ValueError:
            o = dict(id=h["id"], end="hang" if hung else "crash", ev=[])
        res.write(json.dumps(o) + "\n")
    res.write("{}\n")


main()
