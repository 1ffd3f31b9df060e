"""C09: parameters read back what was written."""
import re, struct
from fractions import Fraction
from .. import build, tlc, unit
from ..core import ToolError

KEYS = ["k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute",
        "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"]
DEFAULTS = [64, 0, 1, 8196, 0, 0, 16, 32, 32, 1]
BAD = ["kk", "", "use_chunk", "chunk_size", "dev_suppress_stderr", "gridres", "k_init", "nthreads",
       "use_device", "0", "_", "cc", "knn", "use_recompute=1"]
RANGE = dict(int=(-2**31, 2**31 - 1), short=(-2**15, 2**15 - 1), long=(-2**63, 2**63 - 1),
             unsigned=(0, 2**32 - 1), size_t=(0, 2**64 - 1), bool=(0, 1),
             ushort=(0, 2**16 - 1), llong=(-2**63, 2**63 - 1), ullong=(0, 2**64 - 1))
TYPES = list(RANGE) + ["float", "double", "ldouble"]


def misspelt(r):
    """a key there is not, often nearly one there is"""
    k = r.choice(KEYS)
    b = r.choice([k.upper(), k.capitalize(), k + " ", " " + k, k + "\t", k + "\n", k[:-1], k[1:], k + "s",
                  k + k[-1], k.replace("_", "-"), k.replace("_", ""), k.replace("_", " "), "-" + k,
                  "--" + k.replace("_", "-"), k.split("_")[-1], "'" + k + "'", k + "=", r.choice(BAD)])
    return b if b not in KEYS else misspelt(r)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def tok(s):
    """exact value of a number printed by the driver"""
    try:
        m = re.fullmatch(r"(-?)0x([0-9a-f]+)(?:\.([0-9a-f]+))?p([+-]?\d+)", s)
        if m:          # also those with more digits than a double has
            f = m.group(3) or ""
            v = Fraction(int(m.group(2) + f, 16)) * Fraction(2) ** (int(m.group(4)) - 4 * len(f))
            v = -v if m.group(1) else v
        else:
            v = Fraction(s)
    except (ValueError, OverflowError):
        return "?" + s
    return str(v)


def value(v, ty):
    """description of the value v (Fraction) written as ty"""
    can = []
    if v.denominator == 1 and abs(v) <= 2**64 and abs(v) < (2**64 if ty in RANGE else 10**19):
        n = int(v)
        can = [t for t, (a, b) in RANGE.items() if a <= n <= b] + ["ldouble"]
        if Fraction(float(n)) == v:
            can.append("double")
            try:
                if Fraction(f32(float(n))) == v:
                    can.append("float")
            except OverflowError:
                pass
    elif ty in ("float", "double", "ldouble"):
        can = [ty]
    return dict(tok=str(v), dbl=str(Fraction(float(v))) if "double" in can or ty not in ("float", "ldouble") else "*",
                can=can)


def draw(r):
    """-> (type, text, exact value)"""
    ty = r.choice(TYPES)
    if ty in RANGE:
        a, b = RANGE[ty]
        n = r.choice([a, b, a + 1, b - 1, 0, 1, r.randrange(a, b + 1),
                      max(a, min(b, r.randrange(-300, 70000)))])
        return ty, str(n), Fraction(n)
    if ty == "double":
        x = r.choice([0.1, 1 / 3, 2.5, 1e-9, 3.0, 1e15, 2.0**53 + 2, 1e18, 123456789.0, 16777217.0,
                      1e-300, 1.7976931348623157e308, 5e-324, r.random(), float(r.randrange(10**9)),
                      -r.random() * 1e5, float(r.randrange(10**18)), 1e6, 1234567.0, 0.30000000000000004])
        return ty, x.hex(), Fraction(x)
    if ty == "ldouble":
        m, e = r.choice([(3, -1), (1, 63), (2**63 + 1, 0), (2**63 + 1, -70), (7, 0), (1, -40)] +
                        [(r.randrange(2**63, 2**64) * r.choice([1, -1]), r.randrange(-200, 1))] * 3)
        return ty, "%s0x%xp%d" % ("-" if m < 0 else "", abs(m), e), m * Fraction(2) ** e
    x = f32(r.choice([0.1, 2.5, 1 / 3, 1e6, 1234567.0, 16777216.0, 1e-20, 3e38, r.random(),
                      float(r.randrange(10**6)), -0.7]))
    return ty, x.hex(), Fraction(x)


def check(run):
    r = run.rng
    out = tlc.model(run, "MCParams", "MCParams.cfg")
    hists = sorted({s for s in tlc.prints(out) if s.startswith("HIST |")})
    run.add("histories_of_the_model", len(hists))
    if run.thorough:
        tlc.model(run, "MCParams", "MCParams_more.cfg")
    exe, log = build.driver(run, "drv_args", build.tess_variants()[1:])
    if exe is None:
        raise ToolError("drv_args does not build:\n" + log[-2000:])
    lines, meta = [], {}

    def add(ops):
        """ops: list of tuples (op, obj, ...) with concrete keys"""
        vals = [value(Fraction(d), "int") for d in DEFAULTS]
        ev, txt = [], []
        for op in ops:
            e = dict(op=op[0], o=op[1], key=1, key2=1, to=0, val=1, ty="int", fedkeys=[])
            if op[0] == "set":
                ty, t, v = op[3]
                vals.append(value(v, ty))
                e.update(key=op[2][0], val=len(vals))
                txt.append("S %d %s %s %s" % (op[1], op[2][1], ty, t))
            elif op[0] == "get":
                e.update(key=op[2][0], ty=op[3])
                txt.append("G %d %s %s %d" % (op[1], op[2][1], op[3], r.randrange(4)))
            elif op[0] == "copy":
                e.update(to=op[2])
                txt.append("C %d %d" % (op[1], op[2]))
            elif op[0] == "move":
                e.update(key=op[2][0], to=op[3], key2=op[4][0])
                txt.append("M %d %s %d %s" % (op[1], op[2][1], op[3], op[4][1]))
            elif op[0] == "new":
                txt.append("N %d" % op[1])
            elif op[0] == "use":
                e.update(fedkeys=[7, 1, 7, 1, 8, 9])
                txt.append("U %d" % op[1])
            elif op[0] == "locale":
                txt.append("L %d" % op[1])
            elif op[0] == "call":
                txt.append("T %d %d" % (op[1], r.randrange(42)))
            ev.append(e)
        i = "p%d" % len(lines) if len(lines) % 2 else "p%dx" % len(lines)
        meta[i] = (vals, ev)
        lines.append((i, "ARGS %s ; %s" % (i, " ; ".join(txt))))

    def key():
        x = r.randrange(10)
        return (x + 1, KEYS[x])

    def bad():
        return (99, "%" + misspelt(r).encode().hex())

    def small(k):
        """a value the computation accepts"""
        v = {5: r.randrange(2), 6: r.randrange(2), 10: r.randrange(2)}.get(k[0], r.randrange(8, 40))
        if k[0] == 7:
            v = r.randrange(1, 9)
        return (r.choice(["int", "long", "double", "size_t", "short", "float"]), str(v), Fraction(v))

    # the model's own histories
    pick = hists if run.thorough else r.sample(hists, 700)
    for s in pick:
        keys = {1: key(), 9: bad()}
        k2 = key()
        while k2 == keys[1]:
            k2 = key()
        keys[2] = k2
        mode = "call" in s
        ops = []
        vs = {}
        for m in re.finditer(r'<<"(\w+)", (\d+)(?:, (\d+))?(?:, (\d+))?(?:, (\d+))?>>', s):
            n, o, a, b = m.group(1), int(m.group(2)), m.group(3), m.group(4)
            if n == "set":
                k = keys[int(a)]
                if mode:
                    ops.append(("set", o, k, small(k)))
                else:
                    ops.append(("set", o, k, vs.setdefault(b, draw(r))))
            elif n == "get":
                ops.append(("get", o, keys[int(a)], r.choice(TYPES)))
            elif n == "move":
                if not mode:     # (a call could be given a value it does not accept)
                    ops.append(("move", o, keys[int(a)], int(b), keys[int(m.group(5))]))
            elif n == "copy":
                ops.append(("copy", o, int(a)))
            else:
                ops.append((n, o))
        add(ops)
    # longer ones: every value is read back in every type
    for x in range(run.pick(120, 1500)):
        ops = []
        mode = x % 3 == 0
        for _ in range(r.randrange(5, 16)):
            t = r.random()
            o = r.randrange(2)
            k = key()
            if t < 0.45:
                ops.append(("set", o, k, small(k) if mode else draw(r)))
                for ty in r.sample(TYPES, 4) if r.random() < 0.7 else TYPES:
                    ops.append(("get", o, k, ty))
            elif t < 0.55:
                ops.append(("get", o, k, r.choice(TYPES)))
            elif t < 0.63:
                ops.append(("set", o, bad(), draw(r)))
            elif t < 0.7:
                ops.append(("get", o, bad(), r.choice(TYPES)))
            elif t < 0.82:
                ops.append(("copy", o, 1 - o))
            elif t < 0.86:
                ops.append(("new", o))
            elif t < 0.92:
                ops.append(("locale", o))
            elif t < 0.97 and not mode:
                ops.append(("move", o, k, r.randrange(2), key()))
            elif mode:
                ops.append((r.choice(["call", "use"]), o))
        add(ops)
    # large values on their way to the computation
    for x in range(run.pick(60, 400)):
        ops = []
        for _ in range(3):
            k = r.choice([1, 7, 8, 9])
            n = r.choice([2**31 - 1, 32767, 32768, 65535, 65536, 70000, 10**6, 10**9, 255, 256,
                          r.randrange(1, 2**31)])
            ty = r.choice([t for t in ("int", "long", "size_t", "unsigned", "double", "llong", "ldouble")])
            ops.append(("set", 0, (k, KEYS[k - 1]), (ty, str(n), Fraction(n))))
            ops.append(("use", 0))
        add(ops)
    obs = unit.observe(run, exe, lines, timeout=40, per=40)
    recs = []
    for i, _ in lines:
        o = obs.get(i)
        if not o:
            continue
        vals, ev = meta[i]
        if o["end"] != "return":
            ev = [dict(ev[0], end=o["end"], exc="", got="", fed=[], dump=[])]
        else:
            ev = [dict(e, end=q["end"], exc=q["exc"], got=tok(q["got"]) if q["got"] else "",
                       fed=[str(z) for z in q["fed"]],
                       dump=[[tok(z) for z in d] for d in q["dump"]])
                  for e, q in zip(ev, o["ev"])]
        recs.append(dict(id=i, vals=vals, ev=ev))
    tlc.validate(run, "ParamsTrace", recs)
    run.add("operations", sum(len(q["ev"]) for q in recs))
    run.sample(lines[0][1])
    run.sample(lines[-1][1][:300])
    return ["finite values; character types left out",
            "fractions are compared in the type they were written in"]

