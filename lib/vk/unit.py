"""Unit drivers (heap, boundary, sort)."""
import json, os
from . import build, tess
from .core import ToolError


def get(run, name):
    """-> (path, has device layouts) or (None, False)"""
    stub = ["-O1"] + build.STUB
    exe, label = build.driver(run, name, [
        ("stub", stub), ("part", stub + ["-DNO_CONTIGUOUS_ACCESSOR"]),
        ("host", ["-O1", "-I" + os.path.join(build.HARNESS, "sycl_stub")]),
        ("sycl", ["-O1"] + build.SYCL + ["-L/opt/sycl/lib", "-Wl,-rpath,/opt/sycl/lib", "-lsycl"])])
    if exe is None:
        run.notes.append(name + " does not build: this half of the check was left out")
        return None, False
    return exe, label in ("stub", "part")


def observe(run, exe, lines, timeout=30, per=200):
    """lines: [(id, text)] -> {id: observation}; a line whose session died
    before it is run again on its own."""
    obs = {}
    todo = list(lines)
    while todo:
        sess = ["SESSION %g\n" % timeout + "".join(t + "\n" for _, t in todo[i:i + per])
                for i in range(0, len(todo), per)]
        for o in tess.drive(run, exe, sess):
            if o["id"] not in obs or o["end"] == "return":
                obs[o["id"]] = o
        if any(o["end"] == "hang" for o in obs.values()):
            break              # the driver stops after a few of these
        left = [(i, t) for i, t in todo if i not in obs]
        if len(left) == len(todo):
            if not obs:
                raise ToolError("unit driver makes no progress")
            run.notes.append("%d inputs are not for this build of the driver" % len(left))
            break
        todo = left
    return obs
