"""C12: standard output is silent when asked and always restored."""
import re
from .. import build, tlc, unit
from ..core import ToolError


def check(run):
    r = run.rng
    out = tlc.model(run, "MCStdout", "MCStdout_more.cfg" if run.thorough else "MCStdout.cfg")
    hists = sorted({tuple(re.findall(r'"([a-z-]+)"', s)) for s in tlc.prints(out)
                    if s.startswith("HIST |")})
    run.add("histories_of_the_model", len(hists))
    exe, log = build.driver(run, "drv_stdout", build.tess_variants()[1:])
    if exe is None:
        raise ToolError("drv_stdout does not build:\n" + log[-2000:])
    lines, text = [], {}

    def add(ops):
        i = "h%d" % len(lines)
        text[i] = " ".join(o if o == "pop" else "%s:%d" % (o, r.randrange(420)) for o in ops)
        lines.append((i, "HIST %s %s" % (i, text[i])))
    most = run.pick(900, 6000)
    for hh in hists if len(hists) <= most else r.sample(hists, most):
        add(hh)
    for _ in range(run.pick(60, 600)):         # longer ones
        ops, depth = [], 0
        for _ in range(r.randrange(6, 25)):
            o = r.choice(["push", "pop", "say", "quiet", "loud", "quiet-fail", "loud-fail", "quiet",
                          "break", "mend", "void"])
            if o in ("push", "void") and depth == 2 or o == "pop" and depth == 0:
                continue
            depth += (o in ("push", "void")) - (o == "pop")
            ops.append(o)
        add(ops)
    obs = unit.observe(run, exe, lines, timeout=40, per=20)
    recs = []
    for i, _ in lines:
        o = obs.get(i)
        if not o:
            continue
        ev = o.get("ev", [])
        if o["end"] != "return":
            ev = [dict(op="loud", v=0, fail=False, end=o["end"], exc="", cur=0, same=True, bad=False,
                       report=False, said=0, got=[0])]
        recs.append(dict(id=i, ops=text[i], ev=ev))
    tlc.validate(run, "StdoutTrace", recs)
    run.add("calls", sum(e["op"] in ("quiet", "loud") for q in recs for e in q["ev"]))
    run.add("calls_that_raised", sum(e["end"] == "throw" for q in recs for e in q["ev"]))
    run.sample(text["h0"])
    run.sample(text["h%d" % (len(lines) - 1)])
    return ["calls of one thread at a time",
            "calls are made to fail by parameter values that are not numbers"]
