"""C08: the result is a well-formed jagged array, its text forms are faithful."""
import itertools, re
from .. import build, tlc, unit
from ..core import ToolError


BAD = -999999     # the text has another form


def ints(line):
    return [int(x) for x in re.findall(r"-?\d+", line)]


def printed(t):
    """rows of the printed form: { newline, one line per row, }"""
    lines = t.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    body = "\n".join(lines).strip()
    if not body.startswith("{") or not body.endswith("}"):
        return [[BAD]]
    if body == "{}":
        return []
    lines = body.split("\n")
    if lines[0].strip() != "{" or lines[-1].strip() != "}":
        return [[BAD]]
    out = []
    for x in lines[1:-1]:
        if not re.fullmatch(r"\s*\{[-\d,\s]*\}\s*,?\s*", x):
            return [[BAD]]
        out.append(ints(x))
    return out


def saved(t):
    if t == "":
        return []
    if not t.endswith("\n"):
        return [[BAD]]
    lines = t[:-1].split("\n")
    if any(not re.fullmatch(r"[-\d\s]*", x) for x in lines):
        return [[BAD]]
    return [ints(x) for x in lines]


def check(run):
    r = run.rng
    tlc.model(run, "Jagged", "MCJagged.cfg")
    ways = build.tess_variants()[1:]
    exe, log = build.driver(run, "drv_dnn", ways[:1] +
                            [("noconst", ways[0][1] + ["-DNO_CONST_ROWS"])] + ways[1:])
    if exe is None:
        raise ToolError("drv_dnn does not build:\n" + log[-2000:])
    lines, meta = [], {}

    def add(rows, ti, how, edits=()):
        i = "j%d" % len(lines)
        meta[i] = dict(rows=rows if how != "default" else [], made=False, n=0)
        lines.append((i, "DNN %s %s %s %d %s %s %d %s" % (
            i, ti, how, len(rows), " ".join(str(len(x)) for x in rows),
            " ".join(str(v) for x in rows for v in x), len(edits),
            " ".join("%d %d %d" % e for e in edits))))
    hows = ["copy", "move", "copied", "moved"]
    # every combination of row lengths of the model
    for m in range(5):
        for ls in itertools.product(range(3), repeat=m):
            add([[r.randrange(100) for _ in range(x)] for x in ls], r.choice(["int", "long", "short"]),
                r.choice(hows))
    add([], "int", "default")
    add([], "long", "default")
    for _ in range(run.pick(150, 1500)):
        m = r.choice([1, 2, 5, 12, 40])
        ti = r.choice(["int", "long", "short"])
        top = dict(int=2**31 - 1, long=2**31 - 1, short=2**15 - 1)[ti]
        rows = [[r.choice([0, 1, 9, 10, 99, r.randrange(1000), top, -1, -r.randrange(1000)]) for _ in range(
            r.choice([0, 0, 1, 2, 7, 20]))] for _ in range(m)]
        full = [i for i in range(m) if rows[i]]
        ed = []
        for _ in range(r.randrange(3) if full else 0):
            i = r.choice(full)
            ed.append((i, r.randrange(len(rows[i])), r.randrange(1000)))
        add(rows, ti, r.choice(hows), ed)
    # lengths beyond a byte and a short, of a row and of the whole
    for ls in ([300, 0, 256, 255], [1] * 300, [40000, 0, 30000], [70000], [0] * 70000 + [2]):
        add([[r.randrange(100) for _ in range(x)] for x in ls], "int", r.choice(hows),
            [(0, len(ls) - 1, 7)] if ls[0] == 300 else ())
    for x in range(run.pick(60, 500)):
        i = "r%d" % x
        n = r.choice([0, 1, 2, 3, 5, 12, 30])
        meta[i] = dict(rows=[], made=True, n=n)
        lines.append((i, "RES %s %d %d %d %d %d" % (i, n, r.choice([1, 2, 4, 8, 40]),
                                                   r.choice([1, 2, 5, 16]), x % 2, r.randrange(10**6))))
    obs = unit.observe(run, exe, lines, timeout=30, per=40)
    recs = []
    for i, _ in lines:
        o = obs.get(i)
        if not o:
            continue
        looks = [dict(edit=q["edit"], size=q["size"], list=q["list"], offs=q["offs"],
                      rows=q["rows"], crows=q["crows"], printed=printed(q["print"]),
                      saved=saved(q["save"])) for q in o.get("looks", [])]
        if not looks:
            looks = [dict(edit=[], size=0, list=[], offs=[], rows=[], crows=[], printed=[], saved=[])]
        recs.append(dict(id=i, end=o["end"], looks=looks, **meta[i]))
    tlc.validate(run, "JaggedTrace", recs)
    run.add("containers", len(recs))
    run.add("tessellation_results", sum(q["made"] for q in recs))
    run.sample(lines[40][1])
    return ["the text is read as lines of integers"]
