"""Builds msolve from /repo's current working tree into a scratch directory."""
import os, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNITS = ["msolve/main", "neogb/gb", "fglm/fglm_core", "usolve/usolve"]
LIBS = ["-lflint", "-lmpfr", "-lgmp", "-lm"]


class BuildError(Exception):
    pass


def simd(level=None):
    """flags and config defines as configure picks them for this CPU"""
    flags = open("/proc/cpuinfo").read()
    m = re.search(r"^flags\s*:(.*)$", flags, re.M)
    have = set(m.group(1).split()) if m else set()
    avx2 = "avx2" in have
    avx512 = "avx512f" in have and avx2
    if level == "none":
        avx2 = avx512 = False
    elif level == "avx2":
        avx512 = False
    cflags, defs = [], []
    if avx2:
        cflags += ["-mavx", "-mfma", "-mavx2", "-mbmi", "-mbmi2"]
        defs.append("#define HAVE_AVX2 1")
    if avx512:
        for f in ("avx512f", "avx512cd", "avx512vl", "avx512bw", "avx512dq"):
            if f in have:
                cflags.append("-m" + f)
        defs.append("#define HAVE_AVX512_F 1")
    return cflags, defs


def config_h(dst, level=None):
    cflags, defs = simd(level)
    defs += ['#define PACKAGE_VERSION "vt"', '#define VERSION "vt"', '#define PACKAGE "msolve"',
             '#define PACKAGE_NAME "msolve"', '#define PACKAGE_STRING "msolve vt"']
    with open(os.path.join(dst, "config.h"), "w") as f:
        f.write("\n".join(defs) + "\n")
    return cflags


def build(scratch, name="msolve", level=None, extra=(), opt="-O2", units=None, sources=(), cc="gcc", lib=False, jitter=False):
    """compile /repo's sources (unity units) plus extra C sources, return the binary's path"""
    d = os.path.join(scratch, "b_" + name)
    os.makedirs(d, exist_ok=True)
    cflags = config_h(d, level)
    base = [cc, "-g0", opt] + cflags + ["-fopenmp", "-DHAVE_CONFIG_H", "-I", d, "-I", os.path.join(REPO, "src"), "-w"] + list(extra)
    jobs = []
    for u in ((UNITS[1:] if lib else UNITS) if units is None else units):
        src = os.path.join(REPO, "src", u + ".c")
        obj = os.path.join(d, u.replace("/", "_") + ".o")
        jobs.append(base + ["-c", src, "-o", obj])
    if jitter:      # schedules
        jobs = [j[:1] + ["-fsanitize=thread"] + j[1:] for j in jobs]      # accesses call into vt_jitter.c
        sources = list(sources) + [os.path.join(VERIF, "harness", "vt_jitter.c")]
    if lib:
        sources = list(sources) + [os.path.join(VERIF, "harness", "vt_lib.c")]
    for s in list(sources) + [os.path.join(VERIF, "harness", "vt_wrap.c")]:
        obj = os.path.join(d, os.path.basename(s) + ".o")
        jobs.append(base + ["-c", s, "-o", obj])

    def run(c):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(" ".join(c) + "\n" + r.stdout[-4000:])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    out = os.path.join(scratch, name)
    objs = [j[-1] for j in jobs]
    run([cc, "-fopenmp"] + list(extra) + ["-Wl,--wrap=time", "-o", out] + objs + LIBS)
    return out
