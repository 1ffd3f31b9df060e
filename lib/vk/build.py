"""Building the drivers from /repo's working tree."""
import concurrent.futures as cf, os, subprocess
from .core import HARNESS, REPO, ToolError

SYCL = ["-I/opt/sycl/include", "-I/opt/sycl/include/sycl"]
INC = ["-I" + HARNESS, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
STUB = ["-DVERIF_STUB", "-I" + os.path.join(HARNESS, "sycl_stub")]


def gxx(src, out, flags, cxx="g++", timeout=400):
    cmd = [cxx, "-std=c++17", "-w"] + flags + INC + [src, "-o", out, "-pthread"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, errors="replace")
    return p.returncode == 0, p.stdout


def driver(run, name, variants, cxx="g++"):
    """Compile HARNESS/name.cpp with the first variant (label, flags) that
    builds.  Returns (path, label) or (None, log)."""
    src = name if os.path.isabs(name) else os.path.join(HARNESS, name + ".cpp")
    log = ""
    for label, flags in variants:
        out = os.path.join(run.dir, os.path.basename(src).rsplit(".", 1)[0] + "-" + label)
        ok, log = gxx(src, out, flags, cxx)
        if ok:
            run.log("built %s (%s)" % (os.path.basename(src), label))
            return out, label
        run.notes.append("%s does not build as '%s': %s" %
                         (name, label, " ".join(log.split())[:300]))
    return None, log


def tess_variants(opt="-O1", small=True, extra=()):
    base = [opt] + (["-DVERIF_SMALL"] if small else []) + list(extra)
    return [("trace", base + STUB + ["-DVOTESS_TRACE"]),
            ("plain", base + STUB),
            ("sycl", base + SYCL + ["-L/opt/sycl/lib", "-Wl,-rpath,/opt/sycl/lib", "-lsycl"])]


def parallel(fns):
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]
