"""Running TLC: exhaustive models and trace specifications."""
import json, os, re, shutil, subprocess
from .core import SPEC, ToolError

CP = ("/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/"
      "CommunityModules-deps.jar")
NUM = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def _java(run, module, cfg, cwd, workers, timeout, extra):
    for f in os.listdir(SPEC):
        if f.endswith(".tla") or f.endswith(".cfg"):
            dst = os.path.join(cwd, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(SPEC, f), dst)
    tmp = os.path.join(cwd, "tmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-Djava.io.tmpdir=" + tmp, "-cp", CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(cwd, "states"),
           "-config", cfg] + extra + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    return p.returncode, p.stdout


def _unquote(line):
    """a string printed by PrintT"""
    try:
        return json.loads(line)
    except ValueError:
        return None


def prints(out):
    return [s for s in (_unquote(l) for l in out.splitlines() if l.startswith('"'))
            if isinstance(s, str)]


def _scratch(run, name):
    d = os.path.join(run.dir, "tlc-" + name)
    i = 0
    while os.path.exists(d):
        i += 1
        d = os.path.join(run.dir, "tlc-%s-%d" % (name, i))
    os.makedirs(d)
    return d


def count(run, out):
    m = None
    for m in NUM.finditer(out):
        pass
    if not m:
        return 0, 0
    gen, dist = (int(x.replace(",", "")) for x in m.groups())
    run.states += dist
    run.transitions += gen
    return gen, dist


def model(run, module, cfg=None, workers=8, timeout=600, extra=(), cfgtext=None):
    """Exhaustive run of a design module; anything but success is an error of
    the check (the design does not depend on the code)."""
    d = _scratch(run, module)
    cfg = cfg or module + ".cfg"
    if cfgtext is not None:
        with open(os.path.join(d, cfg), "w") as f:
            f.write(cfgtext)
    rc, out = _java(run, module, cfg, d, workers, timeout, list(extra))
    if rc != 0 or "No error has been found" not in out and "-simulate" not in extra:
        raise ToolError("design model %s/%s: rc=%d\n%s" % (module, cfg, rc, out[-3000:]))
    gen, dist = count(run, out)
    run.exhaustive.append("%s: %d distinct states, %d transitions" % (cfg[:-4], dist, gen))
    run.log("model %s: %d states generated, %d distinct" % (cfg, gen, dist))
    shutil.rmtree(d, ignore_errors=True)
    return out


def trace(run, module, records, cfg=None, workers=8, timeout=600):
    """Validate records (one behaviour each) against a trace specification.
    The specification prints 'REJECT <...>' for what it cannot explain and
    'DONE <id> ...' when it has consumed a record; both are returned."""
    if not records:
        return [], {}
    d = _scratch(run, module)
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")
    run.log("validating %d records" % len(records))
    rc, out = _java(run, module, cfg or module + ".cfg", d, workers, timeout, [])
    pr = prints(out)
    rej = [s for s in pr if s.startswith("REJECT ")]
    done = {}
    for s in pr:
        if s.startswith("DONE "):
            parts = s.split("|")
            done[parts[1]] = parts[2:]
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("trace spec %s: rc=%d\n%s" % (module, rc, out[-3000:]))
    missing = [r["id"] for r in records if r["id"] not in done]
    if missing:
        raise ToolError("trace spec %s: not consumed: %s" % (module, missing[:5]))
    gen, dist = count(run, out)
    run.traces += len(records)
    run.log("trace spec %s: %d records, %d states, %d rejected" %
            (module, len(records), dist, len(rej)))
    shutil.rmtree(d, ignore_errors=True)
    return rej, done


def validate(run, module, records, **kw):
    """trace() and, if something is rejected, once more for the rejected
    records only: a rejection counts when it is repeated."""
    rej, done = trace(run, module, records, **kw)
    if rej:
        bad = [r for r in records if any(s.split("|")[1] == r["id"] for s in rej)]
        rej2, _ = trace(run, module, bad, **kw)
        run.traces -= len(bad)
        keep = set(rej2)
        rej = [s for s in rej if s in keep]
        byid = {r["id"]: r for r in bad}
        for s in rej:
            run.reject(s, slim(byid.get(s.split("|")[1])))
    return rej, done


def slim(r):
    s = json.dumps(r)
    return r if len(s) < 200000 else s[:200000]


def prove(run, module, goals, timeout=300):
    """Goals about an unbounded design module, decided by Apalache: each is
    (name of the invariant, initial predicate, length).  With length 0 the
    invariant follows from the predicate, with length 1 from it and a step.
    A prover that gives no answer is noted, a disproof is an error of the check
    (the design does not depend on the code)."""
    d = _scratch(run, "apalache-" + module)
    shutil.copy(os.path.join(SPEC, module + ".tla"), d)
    env = dict(os.environ, JVM_ARGS="-Xmx4g", HOME=d, TMPDIR=d)
    for inv, init, length in goals:
        name = "%s: %s from %s in %d" % (module, inv, init, length)
        try:
            p = subprocess.run(["apalache-mc", "check", "--cinit=ConstInit", "--init=" + init,
                                "--inv=" + inv, "--length=%d" % length, "--no-deadlock",
                                "--out-dir=" + os.path.join(d, "out"), module + ".tla"], cwd=d,
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except (subprocess.TimeoutExpired, OSError) as e:
            run.log("no answer from Apalache: %s (%s)" % (name, type(e).__name__))
            continue
        if "The outcome is: Error" in p.stdout:
            raise ToolError("disproved: %s\n%s" % (name, p.stdout[-2000:]))
        if "The outcome is: NoError" not in p.stdout:
            run.log("no answer from Apalache: %s: %s" % (name, p.stdout[-300:]))
            continue
        run.exhaustive.append("%s, for all values (Apalache)" % name)
        run.log("proved " + name)
    shutil.rmtree(d, ignore_errors=True)


SHARES = [("Inv", "Init", 0), ("Inv", "IndInit", 1), ("Once", "IndInit", 0)]
GROW = [("Inv", "Init", 0), ("Inv", "IndInit", 1), ("Progress", "IndInit", 1),
        ("Again", "IndInit", 1)]
